From 857eb1bcb3d1a1784ca230610dfc0dd61a2639ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 01/52] fix: read whole cache records even when reads come up
 short

os.File.Read may return fewer bytes than asked for. A short read of a
record's length or body was decoded as though it were complete.
---
 internal/cache/backends/gob.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..d1996c8 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -134,7 +134,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -157,7 +157,11 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			var commits []git.Commit
 
 			data := make([]byte, size)
-			_, err = f.Read(data)
+			_, err = io.ReadFull(f, data)
+			if err != nil {
+				iterErr = err
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
-- 
2.43.0


From e0b467eadcf908b277477051cdcfcb18cb38de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 02/52] fix: keep the tally's error when reading commits
 succeeded

The deferred call to finish() overwrote it with nil, so that on one CPU an
empty tree was ranked and drawn, ending in a panic.
---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From 1d1f2f4fc5d34091d9eb925ecf8334c82dbb657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 03/52] fix: apply the mailmap when selecting commits by author
 in parallel

git rev-list ignores the mailmap in --author; git log, which runs when there
is only one CPU, does not. The two modes disagreed on which commits to count.
---
 internal/concurrent/concurrent.go |  8 +++++++-
 internal/git/cmd/cmd.go           | 20 ++++++++++++++------
 internal/git/git.go               |  9 ++++++++-
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..8540f4b 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -144,7 +144,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	// -- Get rev list ---------------------------------------------------------
-	revs, err := git.RevList(ctx, whop.revspec, whop.pathspecs, whop.filters)
+	revs, err := git.RevList(
+		ctx,
+		whop.revspec,
+		whop.pathspecs,
+		whop.filters,
+		whop.useMailmap,
+	)
 	if err != nil {
 		return accumulator, err
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..e40028f 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -157,22 +157,30 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
-// Runs git rev-list. When countOnly is true, passes --count, which is much
-// faster than printing then getting all the revisions when all you need is the
-// count.
+// Lists revisions, oldest first.
+//
+// Uses git log and not git rev-list because git rev-list never applies the
+// mailmap when filtering by author.
 func RunRevList(
 	ctx context.Context,
 	revs []string,
 	pathspecs []string,
 	filters LogFilters,
+	useMailmap bool,
 ) (*Subprocess, error) {
 	if len(revs) == 0 {
-		return nil, errors.New("git rev-list requires revision spec")
+		return nil, errors.New("listing revisions requires revision spec")
 	}
 
 	baseArgs := []string{
-		"rev-list",
+		"log",
+		"--pretty=format:%H",
 		"--reverse",
+		"--no-show-signature",
+	}
+
+	if !useMailmap {
+		baseArgs = append(baseArgs, "--no-mailmap")
 	}
 
 	filterArgs := filters.ToArgs()
@@ -193,7 +201,7 @@ func RunRevList(
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
 	if err != nil {
-		return nil, fmt.Errorf("failed to run git rev-list: %w", err)
+		return nil, fmt.Errorf("failed to run git log: %w", err)
 	}
 
 	return subprocess, nil
diff --git a/internal/git/git.go b/internal/git/git.go
index de4a515..34502e3 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -119,6 +119,7 @@ func RevList(
 	revranges []string,
 	pathspecs []string,
 	filters cmd.LogFilters,
+	useMailmap bool,
 ) (_ []string, err error) {
 	defer func() {
 		if err != nil {
@@ -128,7 +129,13 @@ func RevList(
 
 	revs := []string{}
 
-	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters)
+	subprocess, err := cmd.RunRevList(
+		ctx,
+		revranges,
+		pathspecs,
+		filters,
+		useMailmap,
+	)
 	if err != nil {
 		return revs, err
 	}
-- 
2.43.0


From 7b4a7b721733b792f7071f9e49dabd9aafefed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 04/52] fix: do not take a renamed file's path for the next
 commit's hash

---
 internal/git/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..a1b3901 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,7 +65,9 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
-			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			done := linesThisCommit >= 6 &&
+				diff == nil && // Paths of a renamed file can look like a hash
+				(len(line) == 0 || rev.IsFullHash(line))
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From 8af8eb046af46e905e6e0781813638dcac43983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 05/52] fix: do not crash on a timeline of no commits in
 parallel

---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 8540f4b..977bb07 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -461,6 +461,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From 1c8aadbcc42e7a00f81fac8e91c37d37daf78822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 06/52] fix: advance the timeline past days that have no
 midnight

In time zones where clocks go forward at midnight, the start of such a day
came out as 23:00 on the day before, so that stepping to the next day never
got anywhere.
---
 internal/tally/bucket.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..8faf234 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,9 +126,24 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// Returns the first instant of the given (normalized) calendar date.
+//
+// This isn't always midnight. There are time zones where clocks are moved
+// forward at midnight. time.Date() might then give us a time on the day before.
+func startOfDay(year int, month time.Month, day int) time.Time {
+	_, _, want := time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Date()
+
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	for hour := 1; t.Day() != want && hour < 24; hour++ {
+		t = time.Date(year, month, day, hour, 0, 0, 0, time.Local)
+	}
+
+	return t
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDay(year, month, day)
 }
 
 var daily = Resolution{
@@ -136,7 +151,7 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		return startOfDay(year, month, day+1)
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -152,14 +167,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -169,14 +184,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From 502a36f885cbb8fe603a7b589831fc1803427895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 07/52] fix: count no files for an author whose commits change
 none

The timeline fell back to the number of commits.
---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..1e7138f 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -139,7 +139,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From d8c1ebe3605078d7077ff93583f4c8d5be4729c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 08/52] fix: extend a timeline to its last commit instead of
 crashing

---
 internal/tally/bucket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 8faf234..e243741 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -324,6 +324,11 @@ func Rebucket(
 		return buckets
 	}
 
+	// Commits can be later than the end if the clock was set in between
+	if last := buckets[len(buckets)-1].Time; last.After(end) {
+		end = last
+	}
+
 	rebuckets := []TimeBucket{}
 
 	// Re-bucket using new resolution
-- 
2.43.0


From e90941946e00bd8b913e236a8a0a02bc567f6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 09/52] fix: rank tied authors in the same order every time

---
 internal/tally/tally.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 1e7138f..2f7b8b4 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -2,6 +2,7 @@
 package tally
 
 import (
+	"cmp"
 	"iter"
 	"slices"
 	"time"
@@ -354,7 +355,12 @@ func Rank(tallies map[string]Tally, mode TallyMode) []FinalTally {
 	}
 
 	slices.SortFunc(final, func(a, b FinalTally) int {
-		return -a.Compare(b, mode)
+		return cmp.Or(
+			-a.Compare(b, mode),
+			// Keep order of authors still tied from changing between runs
+			cmp.Compare(a.AuthorName, b.AuthorName),
+			cmp.Compare(a.AuthorEmail, b.AuthorEmail),
+		)
 	})
 	return final
 }
-- 
2.43.0


From 260b6ea93ed99d35a9b829035e476113cf059e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 10/52] fix: pick an author's name regardless of the order of
 commits

When one email address was used with several names, which of them was shown
depended on map iteration order and on which worker finished first.
---
 internal/tally/tally.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 2f7b8b4..93e6634 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -95,6 +95,8 @@ type Tally struct {
 	numTallied int
 }
 
+// Returns whichever string isn't empty. If neither is, returns the one sorting
+// first, so that the result doesn't depend on the order of the arguments.
 func or(a, b string) string {
 	if a == "" {
 		return b
@@ -102,7 +104,7 @@ func or(a, b string) string {
 		return a
 	}
 
-	return a
+	return min(a, b)
 }
 
 func unionInPlace(a, b map[string]bool) map[string]bool {
@@ -299,6 +301,8 @@ func TallyCommitsByPath(
 				tally.numTallied = 0 // Don't count toward files changed
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.commitset[commit.ShortHash] = true
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
@@ -320,6 +324,8 @@ func TallyCommitsByPath(
 					tally.commitset = map[string]bool{}
 				}
 
+				tally.name = or(tally.name, commit.AuthorName)
+				tally.email = or(tally.email, commit.AuthorEmail)
 				tally.commitset[commit.ShortHash] = true
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
-- 
2.43.0


From a65d90d3b3feba1edb16d819d8c4b72da5fae62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 11/52] fix: report errors reading git's output in workers

The second := assigned to the same variable, so the first finish() was never
called.
---
 internal/concurrent/worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..77763ea 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -215,8 +215,8 @@ loop:
 			result, err := func() (_ T, err error) {
 				var result T
 
-				lines, finish := subprocess.StdoutNullDelimitedLines()
-				defer func() { err = errors.Join(err, finish()) }()
+				lines, finishLines := subprocess.StdoutNullDelimitedLines()
+				defer func() { err = errors.Join(err, finishLines()) }()
 
 				commits, finish := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finish()) }()
-- 
2.43.0


From 37b4daed0222b6ba4fcb59d0aadc41fe93fad8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 12/52] fix: do not report a partial tally when the last worker
 fails

If the results channel was already closed by the time the main goroutine got
to run, select could pick it over the pending error.
---
 internal/concurrent/concurrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 977bb07..e1b8831 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -321,6 +321,12 @@ loop:
 		fmt.Printf("%s\r", pretty.EraseLine)
 	}
 
+	// The results channel is closed after the waiter has forwarded all worker
+	// errors, but select might have picked it over an error still waiting.
+	if err, ok := <-errs; ok && err != nil {
+		return accumulator, fmt.Errorf("concurrent tally failed: %w", err)
+	}
+
 	// Check if there was a caching error (and wait for cacher to exit)
 	// We have to do this here in addition to above in case there is a caching
 	// error after the last chunk of work is handled.
-- 
2.43.0


From 813eb50945954131e1134b79d6f1a7564d3748a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 13/52] fix: drain git's stderr while reading its output

Git blocks once it has written more to stderr than fits in the pipe, while we
were waiting for it to finish writing to stdout.
---
 internal/git/cmd/subprocess.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index ce5dec3..8397315 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -37,7 +37,7 @@ type Subprocess struct {
 	cmd    *exec.Cmd
 	stdin  io.WriteCloser
 	stdout io.ReadCloser
-	stderr io.ReadCloser
+	stderr *bytes.Buffer
 }
 
 func (s Subprocess) StdinWriter() (_ *bufio.Writer, closer func() error) {
@@ -136,12 +136,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 func (s Subprocess) Wait() error {
 	logger().Debug("waiting for subprocess...")
 
-	stderr, err := io.ReadAll(s.stderr)
-	if err != nil {
-		return fmt.Errorf("could not read stderr: %w", err)
-	}
-
-	err = s.cmd.Wait()
+	err := s.cmd.Wait()
 	logger().Debug(
 		"subprocess exited",
 		"code",
@@ -151,7 +146,7 @@ func (s Subprocess) Wait() error {
 	if err != nil {
 		return &SubprocessErr{
 			ExitCode: s.cmd.ProcessState.ExitCode(),
-			Stderr:   strings.TrimSpace(string(stderr)),
+			Stderr:   strings.TrimSpace(s.stderr.String()),
 			Err:      err,
 		}
 	}
@@ -172,10 +167,10 @@ func run(
 		return nil, fmt.Errorf("failed to open stdout pipe: %w", err)
 	}
 
-	stderr, err := cmd.StderrPipe()
-	if err != nil {
-		return nil, fmt.Errorf("failed to open stderr pipe: %w", err)
-	}
+	// Collect stderr while we read stdout. Git would block if we left stderr
+	// unread and the pipe filled up.
+	var stderr bytes.Buffer
+	cmd.Stderr = &stderr
 
 	var stdin io.WriteCloser
 	if needStdin {
@@ -194,6 +189,6 @@ func run(
 		cmd:    cmd,
 		stdin:  stdin,
 		stdout: stdout,
-		stderr: stderr,
+		stderr: &stderr,
 	}, nil
 }
-- 
2.43.0


From 9c32186e7fcad719def1ee7d95b9c43d293fe688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 14/52] fix: accept names longer than 64KB in git's output

---
 internal/git/cmd/subprocess.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 8397315..f30ffc2 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -11,6 +11,16 @@ import (
 	"strings"
 )
 
+// Git doesn't limit the length of the names we read from it. By default, a
+// scanner gives up on anything longer than 64KB.
+const maxLineLen = 1 << 30
+
+func newScanner(r io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLineLen)
+	return scanner
+}
+
 type SubprocessErr struct {
 	ExitCode int
 	Stderr   string
@@ -60,7 +70,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 	var iterErr error
 
 	seq := func(yield func(string) bool) {
-		scanner := bufio.NewScanner(s.stdout)
+		scanner := newScanner(s.stdout)
 		for scanner.Scan() {
 			if !yield(scanner.Text()) {
 				return
@@ -91,7 +101,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 	var iterErr error
 
 	seq := func(yield func(string) bool) {
-		scanner := bufio.NewScanner(s.stdout)
+		scanner := newScanner(s.stdout)
 
 		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
 			null_i := bytes.IndexByte(data, '\x00')
-- 
2.43.0


From f62f9278a8363c6ecd00bc3dc50d07759744530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 15/52] fix: use the current time zone for cached commits

Commits read from the cache kept the UTC offset in force when they were cached,
and so could land in the wrong bucket of a timeline.
---
 internal/cache/backends/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index d1996c8..7c76144 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -183,6 +183,9 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 					}
 
 					seen[c.Hash] = true
+
+					// Decoded times have the zone they were cached in
+					c.Date = c.Date.Local()
 					if !yield(c) {
 						return
 					}
-- 
2.43.0


From 85fcbc7d5364b4d5788f5c904cd66a132d595f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 16/52] fix: limit diffs to paths relative to the current
 directory

Pathspecs are relative to the current directory but were matched against paths
relative to the root directory. Run from a subdirectory, all changes got
dropped, or those to other files were counted.
---
 internal/concurrent/concurrent.go | 13 +++++++-
 internal/concurrent/worker.go     |  2 +-
 internal/git/cmd/cmd.go           | 12 ++++++++
 internal/git/git.go               | 31 +++++++++++++++++++
 internal/git/pathspec.go          | 51 +++++++++++++++++++++++++++++++
 5 files changed, 107 insertions(+), 2 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index e1b8831..e5b75ed 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -58,6 +58,7 @@ type combinable[T any] interface {
 type whoperation[T combinable[T]] struct {
 	revspec    []string
 	pathspecs  []string
+	rootspecs  []string // Same as pathspecs, but relative to the root directory
 	filters    cmd.LogFilters
 	useMailmap bool
 	ignoreRevs []string
@@ -100,7 +101,7 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
-	commits, err := git.LimitDiffsByPathspec(commits, whop.pathspecs)
+	commits, err := git.LimitDiffsByPathspec(commits, whop.rootspecs)
 	if err != nil {
 		return none, revs, err
 	}
@@ -143,6 +144,16 @@ func tallyFanOutFanIn[T combinable[T]](
 
 	var accumulator T
 
+	if len(whop.pathspecs) > 0 {
+		// Git prints all paths relative to the root directory
+		prefix, err := git.GetPrefix(ctx)
+		if err != nil {
+			return accumulator, err
+		}
+
+		whop.rootspecs = git.RootPathspecs(whop.pathspecs, prefix)
+	}
+
 	// -- Get rev list ---------------------------------------------------------
 	revs, err := git.RevList(
 		ctx,
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 77763ea..9e2c827 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -225,7 +225,7 @@ loop:
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
-				commits, err = git.LimitDiffsByPathspec(commits, whop.pathspecs)
+				commits, err = git.LimitDiffsByPathspec(commits, whop.rootspecs)
 				if err != nil {
 					return result, err
 				}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index e40028f..9587e89 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -157,6 +157,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--show-prefix"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Lists revisions, oldest first.
 //
 // Uses git log and not git rev-list because git rev-list never applies the
diff --git a/internal/git/git.go b/internal/git/git.go
index 34502e3..5848306 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
@@ -186,6 +187,36 @@ func GetRoot() (_ string, err error) {
 	return root, nil
 }
 
+// Returns the path of the current directory relative to the Git root directory,
+// with a trailing slash. Empty if the current directory is the root directory.
+func GetPrefix(ctx context.Context) (_ string, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("failed to get current Git directory: %w", err)
+		}
+	}()
+
+	subprocess, err := cmd.RunRevParsePrefix(ctx)
+	if err != nil {
+		return "", err
+	}
+
+	lines, finish := subprocess.StdoutLines()
+	prefix := strings.Join(slices.Collect(lines), "\n")
+
+	err = finish()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return prefix, nil
+}
+
 // Returns all paths in the working tree under the given pathspecs.
 func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 	defer func() {
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index afc1faa..4e85ac6 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 )
@@ -11,6 +12,10 @@ import (
 var excludePathspecRegexp *regexp.Regexp
 var excludeStripRegexp *regexp.Regexp
 
+var globEscaper = strings.NewReplacer(
+	`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`, "]", `\]`, "{", `\{`, "}", `\}`,
+)
+
 func init() {
 	excludePathspecRegexp = regexp.MustCompile(
 		`^(:[!\^]:|:[!\^][^!\^/]|:\(exclude\))`,
@@ -54,6 +59,52 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 	return includes, excludes
 }
 
+/*
+* Turns pathspecs relative to a directory into pathspecs relative to the root.
+*
+* The prefix is the path of the directory relative to the root directory.
+ */
+func RootPathspecs(pathspecs []string, prefix string) []string {
+	if prefix == "" {
+		return pathspecs
+	}
+
+	rooted := []string{}
+	for _, p := range pathspecs {
+		magic := excludeStripRegexp.FindString(p)
+		rest := p[len(magic):]
+		if rest == "" {
+			rooted = append(rooted, p)
+			continue
+		}
+
+		dir := prefix
+		for {
+			if after, ok := strings.CutPrefix(rest, "../"); ok {
+				dir, rest = path.Join(dir, ".."), after
+			} else if after, ok := strings.CutPrefix(rest, "./"); ok {
+				rest = after
+			} else {
+				break
+			}
+		}
+
+		// As in Git, a leading star matches across directories
+		dir = path.Clean(globEscaper.Replace(path.Clean(dir)))
+		if strings.HasPrefix(rest, "*") && dir != "." {
+			dir = path.Join(dir, "**")
+		}
+
+		root := path.Join(dir, rest)
+		if strings.HasSuffix(rest, "/") {
+			root += "/"
+		}
+		rooted = append(rooted, magic+root)
+	}
+
+	return rooted
+}
+
 // Function might panic if passed an invalid pathspec. We validate these
 // elsewhere.
 func PathspecMatch(pathspec string, p string) bool {
-- 
2.43.0


From 902aefedb1cafdaba5deea3cdfebe7752cd00d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 17/52] fix: match path arguments that look like patterns
 literally

A file named b/{x}.txt could not be selected by its name. One named a[b made
git-who panic because it isn't a valid pattern.
---
 internal/git/pathspec.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 4e85ac6..1e7340d 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -105,17 +105,23 @@ func RootPathspecs(pathspecs []string, prefix string) []string {
 	return rooted
 }
 
-// Function might panic if passed an invalid pathspec. We validate these
-// elsewhere.
+// Function panics if passed an empty pathspec. Git disallows those.
 func PathspecMatch(pathspec string, p string) bool {
 	if len(pathspec) == 0 {
 		panic("empty string is not valid pathspec")
 	}
 
+	// Like Git, prefer to take the pathspec literally. There might be a file or
+	// directory with a name that looks like a pattern.
+	literal := path.Clean(pathspec)
+	if p == pathspec || strings.HasPrefix(p, literal+"/") {
+		return true
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
-		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
+		return false // Bad pattern. As in Git, doesn't match anything
 	}
 
 	if didMatch {
-- 
2.43.0


From 5f3ca06226d27adf9f49743e4c30af3e1a5a3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 18/52] fix: recreate the cache directory after wiping a
 corrupt cache

Adding to the cache right after failed because the directory was gone.
---
 internal/cache/backends/gob.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 7c76144..dd55f5d 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -252,7 +252,8 @@ func (b *GobBackend) Clear() error {
 		return err
 	}
 
-	return nil
+	// We might still be asked to add to the cache
+	return os.MkdirAll(b.Dir, 0o700)
 }
 
 func GobCacheDir(prefix string, gitRootPath string) string {
-- 
2.43.0


From 29164e220726ee7a7b4979156c900181acbc623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 19/52] fix: do not treat the path of the cache directory as a
 pattern

The name of the repository is part of that path. With a repository named a[b,
closing the cache ended in a panic.
---
 internal/cache/backends/gob.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index dd55f5d..b64d5f0 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -77,12 +77,13 @@ func (b *GobBackend) Close() error {
 	}
 
 	// Remove any other dangling cache files
-	matches, err := filepath.Glob(filepath.Join(b.Dir, "*"))
+	entries, err := os.ReadDir(b.Dir)
 	if err != nil {
-		panic(err) // Bad pattern
+		return err
 	}
 
-	for _, match := range matches {
+	for _, entry := range entries {
+		match := filepath.Join(b.Dir, entry.Name())
 		if match == b.compressedPath() {
 			continue
 		}
-- 
2.43.0


From e4513243621c0de489232182106229d3e693dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 20/52] fix: keep days after one skipped entirely in the
 timeline

Some time zones have left out a whole day to move across the date line.
---
 internal/tally/bucket.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index e243741..64a1b0d 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,19 +126,22 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
-// Returns the first instant of the given (normalized) calendar date.
+// Returns the first full hour of the given (normalized) calendar date.
 //
 // This isn't always midnight. There are time zones where clocks are moved
 // forward at midnight. time.Date() might then give us a time on the day before.
+// Where a zone has skipped the whole day, returns the start of the next one.
 func startOfDay(year int, month time.Month, day int) time.Time {
-	_, _, want := time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Date()
+	for ; ; day++ {
+		want := time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Day()
 
-	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
-	for hour := 1; t.Day() != want && hour < 24; hour++ {
-		t = time.Date(year, month, day, hour, 0, 0, 0, time.Local)
+		for hour := range 24 {
+			t := time.Date(year, month, day, hour, 0, 0, 0, time.Local)
+			if t.Day() == want {
+				return t
+			}
+		}
 	}
-
-	return t
 }
 
 func applyDaily(t time.Time) time.Time {
-- 
2.43.0


From 2d946f817f85fc97ca05b5d0fb3058f0af01a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 21/52] fix: pick an author's name in the timeline regardless
 of commit order

---
 internal/tally/bucket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 64a1b0d..fda6ca8 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -257,6 +257,8 @@ func TallyCommitsByDate(
 				tally.fileset = map[string]bool{}
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.numTallied += 1
 
 			if !commit.IsMerge {
-- 
2.43.0


From 21c2cf9797fb4fed9b309e7b88b7fdb8939d163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 22/52] fix: only cache commits from a git log that succeeded

Commits were cached as soon as they were parsed. When git failed midway, the
last commit parsed could be incomplete, and was then served from the cache from
then on.
---
 internal/concurrent/cache.go  | 23 ++++-------------------
 internal/concurrent/worker.go | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/internal/concurrent/cache.go b/internal/concurrent/cache.go
index 80fe688..cf66fc6 100644
--- a/internal/concurrent/cache.go
+++ b/internal/concurrent/cache.go
@@ -6,33 +6,18 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git"
 )
 
-const cacheChunkSize = chunkSize
-
-// Transparently splits off commits to the cache queue
+// Transparently collects the commits to be cached
 func cacheTee(
 	commits iter.Seq[git.Commit],
-	toCache chan<- []git.Commit,
+	chunk *[]git.Commit,
 ) iter.Seq[git.Commit] {
-	chunk := []git.Commit{}
-
 	return func(yield func(git.Commit) bool) {
 		for c := range commits {
-			chunk = append(chunk, c)
-
-			if len(chunk) >= cacheChunkSize {
-				toCache <- chunk
-				chunk = []git.Commit{}
-			}
-
+			*chunk = append(*chunk, c)
 			if !yield(c) {
-				break
+				return
 			}
 		}
-
-		// Make sure to write any remainder
-		if len(chunk) > 0 {
-			toCache <- chunk
-		}
 	}
 }
 
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 9e2c827..97d124f 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -211,7 +211,8 @@ loop:
 				return err
 			}
 
-			// Read parsed commits and enqueue for caching
+			// Read parsed commits
+			chunk := []git.Commit{}
 			result, err := func() (_ T, err error) {
 				var result T
 
@@ -221,7 +222,7 @@ loop:
 				commits, finish := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finish()) }()
 
-				commits = cacheTee(commits, toCache)
+				commits = cacheTee(commits, &chunk)
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
@@ -242,6 +243,16 @@ loop:
 				return err
 			}
 
+			// Enqueue commits for caching, now that we know that they are
+			// complete
+			if len(chunk) > 0 {
+				select {
+				case <-ctx.Done():
+					return errors.New("worker cancelled")
+				case toCache <- chunk:
+				}
+			}
+
 			results <- result
 		}
 	}
-- 
2.43.0


From 9c3549ea75aae6fbd8b48978783d5e271f531662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 23/52] fix: leave out cached commits that are in the future

Commits are cached if they are not in the future at that time. The clock can be
set back after that.
---
 internal/concurrent/concurrent.go |  6 ++++--
 internal/git/parse.go             | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index e5b75ed..8ee2eb8 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -100,14 +100,16 @@ func accumulateCached[T combinable[T]](
 ) (T, []string, error) {
 	var none T
 
+	foundRevs := []string{}
 	commits, finish := c.Get(revs)
+	commits = revTee(commits, &foundRevs)
+	commits = git.SkipDisallowed(commits)
 	commits, err := git.LimitDiffsByPathspec(commits, whop.rootspecs)
 	if err != nil {
 		return none, revs, err
 	}
 
-	foundRevs := []string{}
-	accumulator, err := whop.tally(revTee(commits, &foundRevs), whop.opts)
+	accumulator, err := whop.tally(commits, whop.opts)
 	if err != nil {
 		return none, revs, err
 	}
diff --git a/internal/git/parse.go b/internal/git/parse.go
index a1b3901..275165b 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -54,6 +54,22 @@ func allowCommit(commit Commit, now time.Time) bool {
 	return true
 }
 
+// Returns an iterator over commits that skips any that have no author or are in
+// the future.
+//
+// Commits in the cache were parsed earlier, but clocks can be set back.
+func SkipDisallowed(commits iter.Seq[Commit]) iter.Seq[Commit] {
+	return func(yield func(Commit) bool) {
+		now := time.Now()
+
+		for commit := range commits {
+			if allowCommit(commit, now) && !yield(commit) {
+				return
+			}
+		}
+	}
+}
+
 // Turns an iterator over lines from git log into an iterator of commits
 func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 	var iterErr error
-- 
2.43.0


From 8520fedad46588e2a82ec33bbac76cd38d4c943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 24/52] fix: keep interrupted and concurrent runs from
 corrupting the cache

The uncompressed cache had a fixed name. When a run was interrupted, the next
one would take over what was left of it, and when several runs were active at
once they wrote to the same file.
---
 internal/cache/backends/gob.go | 39 ++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index b64d5f0..02566b9 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -37,6 +37,7 @@ import (
 type GobBackend struct {
 	Dir       string
 	Path      string
+	workPath  string // Uncompressed file used by this process only
 	wasOpened bool
 	isDirty   bool
 }
@@ -54,7 +55,16 @@ func (b *GobBackend) compressedPath() string {
 func (b *GobBackend) Open() error {
 	b.wasOpened = true
 
-	err := uncompress(b.compressedPath(), b.Path)
+	// Other processes might be using the cache at the same time
+	b.workPath = fmt.Sprintf("%s.%d", b.Path, os.Getpid())
+
+	// Don't trust a file left behind by a process that was interrupted
+	err := os.RemoveAll(b.workPath)
+	if err != nil {
+		return err
+	}
+
+	err = uncompress(b.compressedPath(), b.workPath)
 	if err != nil {
 		return err
 	}
@@ -64,14 +74,21 @@ func (b *GobBackend) Open() error {
 
 func (b *GobBackend) Close() error {
 	if b.isDirty {
-		err := compress(b.Path, b.compressedPath())
+		// Replace the old file all at once so that it is never incomplete
+		tempPath := b.workPath + ".gz"
+		err := compress(b.workPath, tempPath)
 		if err != nil {
 			return err
 		}
+
+		err = os.Rename(tempPath, b.compressedPath())
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return err
+		}
 	}
 
 	// Remove uncompressed file
-	err := os.RemoveAll(b.Path)
+	err := os.RemoveAll(b.workPath)
 	if err != nil {
 		return err
 	}
@@ -115,7 +132,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		return iterErr
 	}
 
-	f, err := os.Open(b.Path)
+	f, err := os.Open(b.workPath)
 	if errors.Is(err, fs.ErrNotExist) {
 		// If file doesn't exist, don't treat as an error
 		return empty, finish
@@ -206,7 +223,7 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 	b.isDirty = true
 
 	f, err := os.OpenFile(
-		b.Path,
+		b.workPath,
 		os.O_WRONLY|os.O_APPEND|os.O_CREATE,
 		0644,
 	)
@@ -283,7 +300,11 @@ func uncompress(sourcePath string, targetPath string) error {
 	}
 	defer f.Close()
 
-	fout, err := os.OpenFile(targetPath, os.O_WRONLY|os.O_CREATE, 0644)
+	fout, err := os.OpenFile(
+		targetPath,
+		os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
+		0644,
+	)
 	if err != nil {
 		return err
 	}
@@ -323,7 +344,11 @@ func compress(sourcePath string, targetPath string) error {
 	}
 	defer f.Close()
 
-	fout, err := os.OpenFile(targetPath, os.O_WRONLY|os.O_CREATE, 0644)
+	fout, err := os.OpenFile(
+		targetPath,
+		os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
+		0644,
+	)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e023dd51680a05304e9a7b27f4ac3bb4a28fcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 25/52] fix: do not take paths for options when listing files

---
 internal/git/cmd/cmd.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 9587e89..97b138b 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -226,12 +226,7 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 		"-z",
 	}
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
-		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
-	}
+	args := slices.Concat(baseArgs, []string{"--"}, pathspecs)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From 1b0d96aa9d5b65fa21120acac6fc9bbfc28de044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 26/52] fix: fail when git config fails

Any failure was taken to mean that no mailmap is configured.
---
 internal/git/config/config.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 56776b0..0554658 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -39,12 +39,8 @@ func globalMailmapPath() (string, error) {
 	err = subprocess.Wait()
 	if err != nil {
 		var subprocessErr *cmd.SubprocessErr
-		if errors.As(err, &subprocessErr) {
-			logger().Debug(
-				"failed to get mailmap path from config or value not present",
-				"exitcode",
-				subprocessErr.ExitCode,
-			)
+		if errors.As(err, &subprocessErr) && subprocessErr.ExitCode == 1 {
+			logger().Debug("no mailmap path in config")
 			p = ""
 		} else {
 			logger().Debug("got unknown error")
-- 
2.43.0


From 72fd0a373af78b3496fd9de5ed814fc2853cb521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 27/52] fix: fail when git's output ends in the middle of a
 commit

A commit without its date would take a timeline back to the year 1.
---
 internal/git/parse.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 275165b..c927179 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -216,7 +216,19 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 			linesThisCommit += 1
 		}
 
-		if linesThisCommit > 0 && allowCommit(commit, now) {
+		if linesThisCommit == 0 || commit.Hash == "" {
+			return // No commit left, or none at all
+		}
+
+		if linesThisCommit < 6 || diff != nil {
+			iterErr = fmt.Errorf(
+				"output from git ended in the middle of commit %s",
+				commit.Name(),
+			)
+			return
+		}
+
+		if allowCommit(commit, now) {
 			yield(commit) // Last yield
 		}
 	}
-- 
2.43.0


From a73eeb7affe4c5007a2268a36053a884fa268a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 28/52] fix: do not allocate gigabytes when the cache is
 corrupt

---
 internal/cache/backends/gob.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 02566b9..ff9d4b9 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -174,14 +174,16 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			// -- Decode next gob --
 			var commits []git.Commit
 
-			data := make([]byte, size)
-			_, err = io.ReadFull(f, data)
+			// Don't allocate what is announced, it could be up to 4GB when the
+			// cache is corrupt
+			var data bytes.Buffer
+			_, err = io.CopyN(&data, f, int64(size))
 			if err != nil {
 				iterErr = err
 				return
 			}
 
-			dec := gob.NewDecoder(bytes.NewReader(data))
+			dec := gob.NewDecoder(&data)
 			err = dec.Decode(&commits)
 			if err != nil {
 				iterErr = err
-- 
2.43.0


From 6422ea68a5c362a3365a34bca2923d84a3b91961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 29/52] fix: allow comments after a revision in the ignore revs
 file

Git does too.
---
 internal/git/config/files.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..65d548a 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,10 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
-
-		// Comments starting with "#" are allowed in the ignore revs file
+		// Comments starting with "#" are allowed in the ignore revs file, after
+		// a revision too
+		line, _, _ := strings.Cut(scanner.Text(), "#")
+		line = strings.TrimSpace(line)
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From d6b9d2d9b99eaed42ebeb223022509374f103fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 30/52] fix: do not confuse a rev with a file of the same name

In a directory with a file called HEAD, git refused to list any commits.
---
 internal/git/cmd/cmd.go | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 97b138b..2c614cc 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -53,18 +53,14 @@ func RunLog(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always separate revs from pathspecs, files can have the name of a rev
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -197,18 +193,14 @@ func RunRevList(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always separate revs from pathspecs, files can have the name of a rev
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From ae33076f9e6486dc7ed08d7354a973f46e324cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 31/52] fix: keep new lines that paths begin with

---
 internal/git/cmd/subprocess.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index f30ffc2..f50decb 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"iter"
 	"os/exec"
+	"regexp"
 	"strings"
 )
 
@@ -15,6 +16,8 @@ import (
 // scanner gives up on anything longer than 64KB.
 const maxLineLen = 1 << 30
 
+var numstatRegexp = regexp.MustCompile(`^\n(\d+|-)\t(\d+|-)\t`)
+
 func newScanner(r io.Reader) *bufio.Scanner {
 	scanner := bufio.NewScanner(r)
 	scanner.Buffer(nil, maxLineLen)
@@ -121,8 +124,11 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 			line := scanner.Text()
 
 			// Handle annoying new line that exists between regular commit
-			// fields and --numstat data
-			processedLine := strings.TrimPrefix(line, "\n")
+			// fields and --numstat data. Paths can begin with a new line too.
+			processedLine := line
+			if numstatRegexp.MatchString(line) {
+				processedLine = strings.TrimPrefix(line, "\n")
+			}
 
 			if !yield(processedLine) {
 				return
-- 
2.43.0


From 1cab3195704df1e986d71f4842df595de8709051 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 32/52] fix: keep git settings from changing answers

---
 internal/git/cmd/cmd.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 2c614cc..43f2bc1 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -15,6 +15,22 @@ const (
 	mailmapLogFormat = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00"
 )
 
+// Options that keep the git settings of the user from changing what we get
+func logSettings(useMailmap bool) []string {
+	settings := []string{
+		"--no-relative",
+		"--no-follow",
+		"--root",
+		"--encoding=UTF-8",
+	}
+
+	if useMailmap {
+		settings = append(settings, "--use-mailmap")
+	}
+
+	return settings
+}
+
 // Runs git log
 func RunLog(
 	ctx context.Context,
@@ -51,6 +67,8 @@ func RunLog(
 		baseArgs = append(baseArgs, "--numstat")
 	}
 
+	baseArgs = append(baseArgs, logSettings(useMailmap)...)
+
 	filterArgs := filters.ToArgs()
 
 	// Always separate revs from pathspecs, files can have the name of a rev
@@ -109,6 +127,8 @@ func RunStdinLog(
 		baseArgs = append(baseArgs, "--numstat")
 	}
 
+	baseArgs = append(baseArgs, logSettings(useMailmap)...)
+
 	var args []string
 	if len(pathspecs) > 0 {
 		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
@@ -191,6 +211,8 @@ func RunRevList(
 		baseArgs = append(baseArgs, "--no-mailmap")
 	}
 
+	baseArgs = append(baseArgs, logSettings(useMailmap)...)
+
 	filterArgs := filters.ToArgs()
 
 	// Always separate revs from pathspecs, files can have the name of a rev
-- 
2.43.0


From 7a66cee3fa04dedea0c28fe3275c2cca29fc598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 33/52] fix: read any ignore-revs file that git blame can read

---
 internal/git/config/files.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 65d548a..a627c14 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -83,11 +83,12 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, 1<<30) // Comments can be long
 	for scanner.Scan() {
 		// Comments starting with "#" are allowed in the ignore revs file, after
-		// a revision too
+		// a revision too. Revisions can be in upper case.
 		line, _, _ := strings.Cut(scanner.Text(), "#")
-		line = strings.TrimSpace(line)
+		line = strings.ToLower(strings.TrimSpace(line))
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From ff34918d99b07cc1b8a04bb54f738d09f744e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 34/52] fix: tell every version of the mailmap files apart

---
 internal/cache/cache.go      | 4 ++--
 internal/git/config/files.go | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index a2b9fdf..109101f 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -2,9 +2,9 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"iter"
 	"os"
 	"os/user"
@@ -177,7 +177,7 @@ func cacheStorageDir(name string) (_ string, err error) {
 
 // Hash of all the state in the repo that affects the validity of our cache
 func repoStateHash(sf config.SupplementalFiles) (string, error) {
-	h := fnv.New32()
+	h := sha256.New()
 	err := sf.MailmapHash(h)
 	if err != nil {
 		return "", err
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index a627c14..baec2d3 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -28,7 +28,7 @@ func (sf SupplementalFiles) HasIgnoreRevs() bool {
 	return len(sf.IgnoreRevsPath) > 0
 }
 
-func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
+func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 	if len(sf.RepoMailmapPath) > 0 {
 		f, err := os.Open(sf.RepoMailmapPath)
 		if !errors.Is(err, fs.ErrNotExist) {
@@ -44,6 +44,12 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
 		}
 	}
 
+	// What moves from one file to the other can change its meaning
+	_, err := h.Write([]byte{0})
+	if err != nil {
+		return fmt.Errorf("error hashing mailmap files: %v", err)
+	}
+
 	if len(sf.GlobalMailmapPath) > 0 {
 		f, err := os.Open(sf.GlobalMailmapPath)
 		if !errors.Is(err, fs.ErrNotExist) {
-- 
2.43.0


From 7c4f2646cead8374620dd0effe4006540b5ddf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 35/52] fix: repositories in directories whose name ends with a
 space

---
 internal/git/cmd/subprocess.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index f50decb..b95842d 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -65,7 +65,8 @@ func (s Subprocess) StdoutText() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(b)), nil
+	// Paths can begin or end with spaces
+	return strings.TrimSuffix(string(b), "\n"), nil
 }
 
 // Returns a single-use iterator over the output of the command, line by line.
-- 
2.43.0


From f0b50429afff26eddcb21731802400ffdc7be52b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 36/52] fix: take a path that leads to a colon as a path

---
 internal/git/pathspec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 1e7340d..077f1a4 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -99,6 +99,9 @@ func RootPathspecs(pathspecs []string, prefix string) []string {
 		if strings.HasSuffix(rest, "/") {
 			root += "/"
 		}
+		if strings.HasPrefix(root, ":") {
+			root = "./" + root // Not magic
+		}
 		rooted = append(rooted, magic+root)
 	}
 
-- 
2.43.0


From 83541a8770ae3f894359a3c700ecd8c5ccb18c3a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 37/52] fix: match redundant path arguments literally

---
 internal/git/pathspec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 077f1a4..f786c1e 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -117,7 +117,9 @@ func PathspecMatch(pathspec string, p string) bool {
 	// Like Git, prefer to take the pathspec literally. There might be a file or
 	// directory with a name that looks like a pattern.
 	literal := path.Clean(pathspec)
-	if p == pathspec || strings.HasPrefix(p, literal+"/") {
+	if strings.HasPrefix(p, literal+"/") {
+		return true
+	} else if p == literal && !strings.HasSuffix(pathspec, "/") {
 		return true
 	}
 
-- 
2.43.0


From 8798a1802aa4e02530d019e296b1e2d5168217fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 38/52] fix: take braces in path arguments literally

---
 internal/git/pathspec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index f786c1e..22be663 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -16,6 +16,11 @@ var globEscaper = strings.NewReplacer(
 	`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`, "]", `\]`, "{", `\{`, "}", `\}`,
 )
 
+// Git doesn't know alternatives in braces
+var braceEscaper = strings.NewReplacer(
+	`\\`, `\\`, `\{`, `\{`, `\}`, `\}`, "{", `\{`, "}", `\}`,
+)
+
 func init() {
 	excludePathspecRegexp = regexp.MustCompile(
 		`^(:[!\^]:|:[!\^][^!\^/]|:\(exclude\))`,
@@ -124,6 +129,7 @@ func PathspecMatch(pathspec string, p string) bool {
 	}
 
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
+	pathspec = braceEscaper.Replace(pathspec)
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
 		return false // Bad pattern. As in Git, doesn't match anything
-- 
2.43.0


From 58c71a63038af5c77d48408ceae63f374e1d771c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 39/52] fix: don't count a file that the current directory has
 replaced

---
 internal/tally/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7dbfbd2..0491618 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -134,6 +134,8 @@ func TallyCommitsTreeFromPaths(
 				relPath, err = filepath.Rel(wd, filepath.FromSlash(absPath))
 				if err != nil || !filepath.IsLocal(relPath) {
 					continue // Skip any paths outside of working dir
+				} else if relPath == "." {
+					continue // Working dir used to be a file
 				}
 			}
 
-- 
2.43.0


From 04045bd2702f88b50f955f0c1ead373e14aaa343 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 40/52] fix: don't match a file by a path that asks for a
 directory

---
 internal/git/pathspec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 22be663..069d7ac 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -140,8 +140,8 @@ func PathspecMatch(pathspec string, p string) bool {
 	}
 
 	// Ensure we mimic Git behavior with trailing slash. See "pathspec" in
-	// gitglossary(3).
-	subdirPathspec := path.Join(pathspec, "**")
+	// gitglossary(3). "**" alone would match the file of that name as well.
+	subdirPathspec := path.Join(pathspec, "**", "*")
 	didMatch, err = doublestar.Match(subdirPathspec, p)
 	if err != nil {
 		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-- 
2.43.0


From d147734152bad49ed5f14209266be2bccc251667 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 41/52] fix: match patterns that start with './'

---
 internal/git/pathspec.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 069d7ac..95de8a6 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -128,6 +128,13 @@ func PathspecMatch(pathspec string, p string) bool {
 		return true
 	}
 
+	// Like Git, resolve "./" in patterns as well
+	if literal != "." && strings.HasSuffix(pathspec, "/") {
+		pathspec = literal + "/"
+	} else {
+		pathspec = literal
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	pathspec = braceEscaper.Replace(pathspec)
 	didMatch, err := doublestar.Match(pathspec, p)
-- 
2.43.0


From a3c838652bd1174d3d4047ec11cffeedd34173fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 42/52] fix: don't reuse what was cached for a shallow clone or
 other diff settings

---
 internal/cache/cache.go       |  5 +++
 internal/git/cmd/cmd.go       | 25 ++++++++++++
 internal/git/config/config.go | 72 +++++++++++++++++++++++++++++++++++
 internal/git/config/files.go  | 27 +++++++++++++
 4 files changed, 129 insertions(+)

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index 109101f..21df880 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -183,6 +183,11 @@ func repoStateHash(sf config.SupplementalFiles) (string, error) {
 		return "", err
 	}
 
+	err = sf.DiffStateHash(h)
+	if err != nil {
+		return "", err
+	}
+
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 43f2bc1..5ecb137 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -185,6 +185,19 @@ func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+// Looks up the path of a file in the Git directory.
+func RunRevParseGitPath(ctx context.Context, name string) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--git-path", name}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Lists revisions, oldest first.
 //
 // Uses git log and not git rev-list because git rev-list never applies the
@@ -262,3 +275,15 @@ func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 
 	return subprocess, nil
 }
+
+func RunConfigGetRegexp(ctx context.Context, regexp string) (*Subprocess, error) {
+	args := []string{"config", "--get-regexp", regexp}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git config --get-regexp: %w", err)
+	}
+
+	return subprocess, nil
+}
diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 0554658..f8adcca 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -51,6 +51,60 @@ func globalMailmapPath() (string, error) {
 	return p, nil
 }
 
+// Looks up the settings that change what Git reports as the diff of a commit.
+func diffSettings() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunConfigGetRegexp(
+		ctx,
+		`^(diff|submodule)\.|^core\.(attributesfile|bigfilethreshold)$`,
+	)
+	if err != nil {
+		return "", err
+	}
+
+	settings, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		var subprocessErr *cmd.SubprocessErr
+		if !errors.As(err, &subprocessErr) || subprocessErr.ExitCode != 1 {
+			return "", err
+		}
+
+		settings = "" // None set
+	}
+
+	return settings, nil
+}
+
+// Path of the file that lists the commits whose parents a shallow clone lacks.
+func shallowPath() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParseGitPath(ctx, "shallow")
+	if err != nil {
+		return "", err
+	}
+
+	p, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return p, nil
+}
+
 // NOTE: We do NOT respect the blame.ignoreRevsFile option in the git config
 // here, we just assume the conventional path for this file in the repo.
 //
@@ -99,6 +153,24 @@ func DetectSupplementalFiles(
 		}
 	}
 
+	// Shallow clone
+	shallowPath, err := shallowPath()
+	if err != nil {
+		return files, err
+	}
+
+	_, err = os.Stat(shallowPath)
+	if err == nil {
+		files.ShallowPath = shallowPath
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return files, err
+	}
+
+	files.DiffSettings, err = diffSettings()
+	if err != nil {
+		return files, err
+	}
+
 	// Repo-local git blame ignore revs file
 	ignoreRevsPath := ignoreRevsPath(gitRootPath)
 	_, err = os.Stat(ignoreRevsPath)
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index baec2d3..339ba33 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -18,6 +18,8 @@ type SupplementalFiles struct {
 	RepoMailmapPath   string
 	GlobalMailmapPath string
 	IgnoreRevsPath    string
+	ShallowPath       string
+	DiffSettings      string
 }
 
 func (sf SupplementalFiles) HasMailmap() bool {
@@ -68,6 +70,31 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 	return nil
 }
 
+// Hashes whatever else changes what Git reports for a commit.
+func (sf SupplementalFiles) DiffStateHash(h hash.Hash) error {
+	_, err := fmt.Fprintf(h, "\x00%s\x00", sf.DiffSettings)
+	if err != nil {
+		return fmt.Errorf("error hashing diff settings: %v", err)
+	}
+
+	if len(sf.ShallowPath) > 0 {
+		f, err := os.Open(sf.ShallowPath)
+		if !errors.Is(err, fs.ErrNotExist) {
+			if err != nil {
+				return fmt.Errorf("could not read shallow file: %v", err)
+			}
+			defer f.Close()
+
+			_, err = io.Copy(h, f)
+			if err != nil {
+				return fmt.Errorf("error hashing shallow file: %v", err)
+			}
+		}
+	}
+
+	return nil
+}
+
 // Get git blame ignored revisions
 func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer func() {
-- 
2.43.0


From 1f5b753fbf35250739671300170b6a0f49e38a7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:00:47 +0000
Subject: [PATCH 43/52] fix: take a second -- as a path

---
 internal/git/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 6f58b1b..59ed44f 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -27,13 +27,16 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 	pathspecs = []string{}
 
 	pastRevs := false
+	pastSeparator := false
 	for line := range lines {
 		if !pastRevs && rev.IsFullHash(line) {
 			revs = append(revs, line)
 		} else {
 			pastRevs = true
 
-			if line != "--" {
+			if line == "--" && !pastSeparator {
+				pastSeparator = true // Any other "--" is a path
+			} else {
 				// If user used backslashes as path separator on windows,
 				// we want to turn into forward slashes
 				pathspecs = append(pathspecs, filepath.ToSlash(line))
-- 
2.43.0


From 8995a8070d9a9c05e0b12a8610b668a222ecece6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 44/52] fix: don't match a file that the current directory has
 replaced

---
 internal/git/pathspec.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 95de8a6..cdf62ab 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -101,7 +101,7 @@ func RootPathspecs(pathspecs []string, prefix string) []string {
 		}
 
 		root := path.Join(dir, rest)
-		if strings.HasSuffix(rest, "/") {
+		if asksForDir(rest) && root != "." {
 			root += "/"
 		}
 		if strings.HasPrefix(root, ":") {
@@ -113,6 +113,12 @@ func RootPathspecs(pathspecs []string, prefix string) []string {
 	return rooted
 }
 
+// As in Git, a file doesn't match a path that ends in a slash or a dot segment.
+func asksForDir(pathspec string) bool {
+	last := pathspec[strings.LastIndexByte(pathspec, '/')+1:]
+	return last == "" || last == "." || last == ".."
+}
+
 // Function panics if passed an empty pathspec. Git disallows those.
 func PathspecMatch(pathspec string, p string) bool {
 	if len(pathspec) == 0 {
@@ -124,12 +130,12 @@ func PathspecMatch(pathspec string, p string) bool {
 	literal := path.Clean(pathspec)
 	if strings.HasPrefix(p, literal+"/") {
 		return true
-	} else if p == literal && !strings.HasSuffix(pathspec, "/") {
+	} else if p == literal && !asksForDir(pathspec) {
 		return true
 	}
 
 	// Like Git, resolve "./" in patterns as well
-	if literal != "." && strings.HasSuffix(pathspec, "/") {
+	if literal != "." && asksForDir(pathspec) {
 		pathspec = literal + "/"
 	} else {
 		pathspec = literal
-- 
2.43.0


From 2e7b19f5121a606a0c5a4a7e71e5eb23db0bd065 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 45/52] fix: report what parse could not write

The error of flushing the standard output was ignored, so that on a full
disk parse printed a part of the commits and succeeded. dump and the CSV
table report it.
---
 internal/subcommands/parse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/subcommands/parse.go b/internal/subcommands/parse.go
index 606274b..f0caec6 100644
--- a/internal/subcommands/parse.go
+++ b/internal/subcommands/parse.go
@@ -92,14 +92,20 @@ func Parse(
 		numCommits += 1
 	}
 
-	w.Flush()
+	err = w.Flush()
+	if err != nil {
+		return err
+	}
 
 	err = finish()
 	if err != nil {
 		return err
 	}
 
-	fmt.Printf("Parsed %d commits.\n", numCommits)
+	_, err = fmt.Printf("Parsed %d commits.\n", numCommits)
+	if err != nil {
+		return err
+	}
 
 	elapsed := time.Now().Sub(start)
 	logger().Debug("finished parse", "duration_ms", elapsed.Milliseconds())
-- 
2.43.0


From ab506dabcf74a635df227e8c84843c87a0fb5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 46/52] fix: exclude authors anywhere in the name and next to
 --author

--nauthor only excluded authors whose name began with the pattern, and
together with --author it added commits instead of removing them, because
git selects what any one of several --author options matches.
---
 internal/git/cmd/filters.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index f1f9cbb..bcfb32a 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -24,24 +24,21 @@ func (f LogFilters) ToArgs() []string {
 		args = append(args, "--until", f.Until)
 	}
 
-	for _, author := range f.Authors {
-		args = append(args, "--author", author)
-	}
-
-	if len(f.Nauthors) > 0 {
-		args = append(args, "--perl-regexp")
-
-		// Build regex pattern OR-ing together all the nauthors
-		var b strings.Builder
-		for i, nauthor := range f.Nauthors {
-			b.WriteString(nauthor)
-			if i < len(f.Nauthors)-1 {
-				b.WriteString("|")
-			}
+	if len(f.Nauthors) == 0 {
+		for _, author := range f.Authors {
+			args = append(args, "--author", author)
 		}
-
-		regex := fmt.Sprintf(`^((?!%s).*)$`, b.String())
-		args = append(args, "--author", regex)
+	} else {
+		// Git selects a commit if any one of several --author options matches,
+		// so everything has to go into a single pattern. A commit must not
+		// match any of the nauthors, wherever in the name or email, and must
+		// match one of the authors, if there are any.
+		regex := fmt.Sprintf(
+			`^(?!.*(?:%s)).*(?:%s)`,
+			strings.Join(f.Nauthors, "|"),
+			strings.Join(f.Authors, "|"),
+		)
+		args = append(args, "--perl-regexp", "--author", regex)
 	}
 
 	return args
-- 
2.43.0


From 6c76bb2f07bdbf0bf546e83a64d6c6cbe90d3fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 47/52] fix: find a relative mailmap.file from a subdirectory

Git looks for it in the root directory. We looked in the current directory
and, when it was not there, turned the mailmap off.
---
 internal/git/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index f8adcca..965cb81 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -145,6 +145,11 @@ func DetectSupplementalFiles(
 	}
 
 	if len(mailmapPath) > 0 {
+		if !filepath.IsAbs(mailmapPath) {
+			// Git looks for it in the root directory, wherever we are
+			mailmapPath = filepath.Join(gitRootPath, mailmapPath)
+		}
+
 		_, err = os.Stat(mailmapPath)
 		if err == nil {
 			files.GlobalMailmapPath = mailmapPath
-- 
2.43.0


From 72f71635cc4c3c7106cd0249bcec75b48167ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:31:09 +0000
Subject: [PATCH 48/52] fix: exclude paths beginning with ! or ^ from a
 subdirectory

From src, :^../^x became :^^x, which is not supported.
---
 internal/git/pathspec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index cdf62ab..475c2d1 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -107,6 +107,9 @@ func RootPathspecs(pathspecs []string, prefix string) []string {
 		if strings.HasPrefix(root, ":") {
 			root = "./" + root // Not magic
 		}
+		if magic != "" {
+			magic = ":(exclude)" // Short magic would go on with "!" or "^"
+		}
 		rooted = append(rooted, magic+root)
 	}
 
-- 
2.43.0


From 34a9088bddb147c401740dfe7fa558a27a999366 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:37:32 +0000
Subject: [PATCH 49/52] fix: match a literal path in a directory with pattern
 characters

---
 internal/git/pathspec.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 475c2d1..cb9ec4d 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -94,23 +94,32 @@ func RootPathspecs(pathspecs []string, prefix string) []string {
 			}
 		}
 
+		// A pathspec may be a literal path too. It no longer reads as that once
+		// the directory is escaped.
+		roots := []string{}
+		literalDir := path.Clean(dir)
+		dir = path.Clean(globEscaper.Replace(literalDir))
+		if literal := globEscaper.Replace(rest); dir != literalDir && rest != literal {
+			roots = append(roots, path.Join(dir, literal))
+		}
+
 		// As in Git, a leading star matches across directories
-		dir = path.Clean(globEscaper.Replace(path.Clean(dir)))
 		if strings.HasPrefix(rest, "*") && dir != "." {
 			dir = path.Join(dir, "**")
 		}
 
-		root := path.Join(dir, rest)
-		if asksForDir(rest) && root != "." {
-			root += "/"
-		}
-		if strings.HasPrefix(root, ":") {
-			root = "./" + root // Not magic
-		}
 		if magic != "" {
 			magic = ":(exclude)" // Short magic would go on with "!" or "^"
 		}
-		rooted = append(rooted, magic+root)
+		for _, root := range append(roots, path.Join(dir, rest)) {
+			if asksForDir(rest) && root != "." {
+				root += "/"
+			}
+			if strings.HasPrefix(root, ":") {
+				root = "./" + root // Not magic
+			}
+			rooted = append(rooted, magic+root)
+		}
 	}
 
 	return rooted
-- 
2.43.0


From aa63033a5c0c00548d6579cf5c719ba80730ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:49:05 +0000
Subject: [PATCH 50/52] fix: notice an incomplete record in the cache before
 tallying it

---
 internal/cache/backends/gob.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index ff9d4b9..e15bf4b 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -141,6 +141,15 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		return empty, finish
 	}
 
+	// A record that isn't complete could still decode to something, so look for
+	// one before anything is tallied
+	err = checkRecords(f)
+	if err != nil {
+		f.Close()
+		iterErr = err
+		return empty, finish
+	}
+
 	// In theory we shouldn't get any duplicates into the cache if we're
 	// careful about what we write to it. But let's make sure by detecting dups
 	// and throwing an error if we see one.
@@ -292,6 +301,31 @@ func GobCacheFilename(stateHash string) string {
 	return fmt.Sprintf("%s.gobs", stateHash)
 }
 
+// Returns an error if the file isn't a series of complete records.
+func checkRecords(f *os.File) error {
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	pos := int64(0)
+	for pos < info.Size() {
+		prefix := make([]byte, 4)
+		_, err := f.ReadAt(prefix, pos)
+		if err != nil {
+			return err
+		}
+
+		pos += int64(len(prefix)) + int64(binary.LittleEndian.Uint32(prefix))
+	}
+
+	if pos > info.Size() {
+		return io.ErrUnexpectedEOF
+	}
+
+	return nil
+}
+
 // Uncompress gzipped file to regular location if it exists
 func uncompress(sourcePath string, targetPath string) error {
 	f, err := os.Open(sourcePath)
-- 
2.43.0


From 62f9f0a2ae597d79af0e3e42f72ef62237193c89 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:01:00 +0000
Subject: [PATCH 51/52] fix: select nothing for all parents of a commit without
 any

---
 internal/git/args.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/git/args.go b/internal/git/args.go
index 59ed44f..ffdd56f 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"fmt"
 	"path/filepath"
+	"slices"
+	"strings"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 	rev "github.com/sinclairtarget/git-who/internal/git/revision"
@@ -55,6 +57,18 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 		return nil, nil, err
 	}
 
+	if len(revs) == 0 {
+		// "All parents" of a commit that has none. Selects nothing, which isn't
+		// the same as not being given.
+		for _, arg := range args {
+			if arg == "--" || slices.Contains(pathspecs, arg) {
+				break
+			} else if strings.HasSuffix(arg, "^@") {
+				revs = append(revs, arg)
+			}
+		}
+	}
+
 	if len(revs) == 0 {
 		// Default rev
 		revs = append(revs, "HEAD")
-- 
2.43.0


From 6c72fc09a17122426bd0ca5414eea73d8ba67730 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:39:43 +0000
Subject: [PATCH 52/52] fix: don't match a file with a pattern that asks for a
 directory

Joining the pattern that begins with a star with "**/" dropped the slash
at its end.
---
 internal/git/pathspec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index cb9ec4d..cd2be19 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -177,7 +177,7 @@ func PathspecMatch(pathspec string, p string) bool {
 	}
 
 	if pathspec[0] == '*' {
-		toplevelPathspec := path.Join("**/", pathspec)
+		toplevelPathspec := "**/" + pathspec
 		didMatch, err = doublestar.Match(toplevelPathspec, p)
 		if err != nil {
 			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-- 
2.43.0

