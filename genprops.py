import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CC="internal/concurrent/concurrent.go"; WK="internal/concurrent/worker.go"; CT="internal/concurrent/cache.go"
GOB="internal/cache/backends/gob.go"; CA="internal/cache/cache.go"; PA="internal/git/parse.go"; SUB="internal/git/cmd/subprocess.go"
TA="internal/tally/tally.go"; TR="internal/tally/tree.go"; BU="internal/tally/bucket.go"
TAB="internal/subcommands/table.go"; TREE="internal/subcommands/tree.go"; HI="internal/subcommands/hist.go"

p("C01","Table totals are exact under every schedule",
 "For every history, commit selection, sort flag and number of CPUs, the table (text or CSV) gives each author exactly the number of distinct selected commits, the sums of lines added and removed, the number of distinct files, and the first and last commit times that the selected commits imply, each commit counted exactly once, and lists the authors in the order the sort flag asks for. This must not depend on how the parallel workers are scheduled, in which order they finish, how the history is cut into units of work, or how git's output is fragmented on the pipes.",
 ["schedules","inputs","configurations"],
 "all goroutine interleavings, worker counts, pipe fragmentations, history sizes relative to the unit of work, and selections (merges, renames, empty commits, binary files, odd paths)",
 "Unit tests tally a handful of commits in one goroutine; nothing in the stable suite runs the parallel pipeline at all, and the functional tests sample one schedule of one repository.",
 [CC,WK,TA,PA,SUB,TAB],
 [("fan-out/fan-in of git log workers","tallyFanOutFanIn, runSpawner, runWorker"),("order-insensitive combination of partial tallies","TalliesByPath.Combine, Tally.Combine, Reduce")],
 [("accumulator","combined partial tallies",CC)],["stdout of table / table --csv"])
p("C02","Tree annotations are exact under every schedule",
 "For every history, the tree shows exactly the files (touched by the selected commits, under the current directory, present in the working tree unless all paths were asked for) and directories above them, down to the depth limit, and every annotation names an author with the highest rank for that node and that author's exact metric, where a directory's metric covers every touched path beneath it and counts a commit once however many of those paths it touches. A file is left unannotated only when its top author is the one shown for the directory it is listed under. This holds for every schedule, worker count and cache content.",
 ["schedules","inputs","configurations"],
 "all interleavings and worker counts, all directory shapes (file/directory swaps, deep chains, deleted and renamed paths), all ranking modes and depths, runs from the root or a subdirectory, cold or warm cache",
 "TestTallyCommitsTree builds one small tree from literal commits in one goroutine and never combines partial tallies.",
 [CC,TR,TA,TREE],[("per-path tallies combined, then summed bottom-up","TallyCommitsTreeFromPaths, TreeNode.Rank"),("line selection","toLines, printTree")],None,["stdout of tree"])
p("C03","Timeline is dense, conserves every commit, and terminates",
 "For every history, time zone and clock reading, the timeline runs without gaps from the bucket of the first selected commit to the bucket of the end date, every selected commit is counted in exactly the bucket of its author date in local time, each non-empty bucket names an author with the highest value in that bucket together with that author's exact metric, and the bars are drawn in proportion to that value and the bucket's total over all authors. Drawing it always finishes, including across daylight-saving changes.",
 ["schedules","inputs","configurations"],
 "all interleavings and ways to cut the history into partial series, all time zones including those whose clocks change at midnight, all date ranges (daily, monthly, yearly resolution), all modes, current time anywhere after the history",
 "The stable tests combine two hand-written three-day series and one empty one, in the sandbox's time zone; no test covers re-bucketing, time zones, or partial series from several workers.",
 [BU,CC,HI],[("partial series merged by day then re-bucketed","TimeSeries.Combine, Rebucket, CalcResolution"),("day truncation","applyDaily, Resolution")],None,["stdout of hist"])
p("C04","The cache never changes an answer",
 "For any sequence of invocations sharing a cache, each invocation prints exactly what it would print with an empty cache, whatever earlier invocations asked for and whatever changed in between: other subcommands, paths, filters, directories, CPU counts and sort flags, new commits, moved or rewound branches, an edited ignore list, an added, edited or removed mailmap, a shallow clone deepened, a git setting changed that decides what git reports as a commit's diff.",
 ["histories","schedules","configurations"],
 "all sequences of invocations and repository changes between them, each under any schedule",
 "The backend tests store and fetch a few commits; the functional caching test runs the same command twice on an unchanged repository.",
 [GOB,CA,CC,CT,WK],[("cache keyed by commit hash within a file keyed by mailmap content, shallow boundary and diff settings","repoStateHash, GobCacheFilename"),("whole commits cached, path limits applied after","cacheTee, LimitDiffsByPathspec"),("set difference of cached and wanted revisions","accumulateCached, setDiff")],
 [("cache file","gzip of length-prefixed gob frames",GOB)],["stdout of a warm run vs a cold run"])
p("C05","A crash at any point leaves a cache that is still safe to use",
 "If an invocation is killed, interrupted together with its git children, or cut off by a power failure at any instant, then the next invocation on the same repository succeeds and prints exactly the answer for an empty cache, and so does every later one.",
 ["crash_points","schedules","histories"],
 "every crash instant (any scheduling step, any byte of any cache write), kill / interrupt / power-loss semantics, one or several crashes in a row, over cold and warm caches",
 "No test interrupts anything.",
 [GOB,CC,WK],[("append-only frames, compressed on close, corrupt cache discarded on read","GobBackend.Open/Add/Get/Close, handleCacheFailure")],
 [("uncompressed working file","left behind by a crash",GOB),("compressed file","rewritten at close",GOB)],["exit status and stdout of the runs after the crash"])
p("C06","A damaged cache heals itself",
 "If the stored cache is truncated, has bytes changed, is replaced by garbage or an empty file, or holds incomplete or repeated records, the next invocation still succeeds with exactly the answer for an empty cache, and invocations after it are served from a working cache again.",
 ["fault_sequences","histories","schedules"],
 "every kind and position of damage to the files in the cache directory between two invocations, followed by any further invocations",
 "No test feeds the cache a damaged file.",
 [GOB,CC],[("errors from opening or reading the cache clear it and fall back to git","handleCacheFailure, GobBackend.Clear"),("duplicate detection","GobBackend.Get")],None,["exit status, stdout, and git work of the runs after the damage"])
p("C07","I/O errors on the cache never produce a wrong answer",
 "If any operation on the cache's files fails or is cut short (I/O error, no space, permission denied, too many open files, short read or write), the invocation either prints exactly the answer for an empty cache and succeeds, or exits with a failure status and an error message; it never prints a wrong answer, crashes, or hangs. The next invocation with a healthy disk succeeds with the right answer.",
 ["fault_sequences","schedules","histories"],
 "every cache file operation of an invocation, every error kind, single and sticky errors, under any schedule",
 "No test injects an I/O error.",
 [GOB,CA,CC,WK],[("error propagation from the cache writer to the result loop","runCacher, cacheErr"),("clear-and-continue on read errors","handleCacheFailure")],None,["exit status and stdout"])
p("C08","A failing git never yields partial numbers as success",
 "If any git process that the invocation depends on cannot be started, exits with an error, is killed, or delivers a stream that cannot be read or parsed, at any point of its output, the invocation exits with a failure status and an error message and never reports a tally as if complete, whatever the timing of the failure relative to the other workers.",
 ["fault_sequences","schedules","inputs"],
 "every git child of every subcommand, every failure kind and byte offset, under any interleaving of workers, waiter and result loop",
 "No test makes git fail.",
 [CC,WK,SUB,PA,"internal/git/git.go",TAB,TREE,HI],[("worker errors forwarded through the waiter to the result loop","runWaiter, tallyFanOutFanIn select loop"),("exit status and stream errors checked","Subprocess.Wait, finish()")],None,["exit status, stderr, stdout"])
p("C09","A failed or interrupted run never poisons the cache",
 "Commits whose data was not completely received from a successful git process are never served from the cache later: after any invocation that failed because a git child failed, was killed or delivered a truncated stream, the next healthy invocation succeeds and prints exactly the answer for an empty cache.",
 ["fault_sequences","schedules","histories"],
 "every git failure kind and byte offset in the workers, any interleaving of parser, cache writer and shutdown, followed by healthy runs with the same or other options",
 "No test runs twice with a failure in between.",
 [WK,CT,CC,GOB],[("commits handed from the parser to the cache writer","cacheTee, runCacher, runWorker")],None,["stdout of the healthy runs that follow"])
p("C10","Every invocation finishes",
 "Every invocation terminates: there is no deadlock, livelock or unbounded waiting for any interleaving, any number of CPUs, any pipe capacity, any amount of output or diagnostics from git, any slowness of git, and any failure of git or of the cache, and once its git children have finished it needs only a bounded number of further steps.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings, pipe capacities, stdout and stderr volumes, stalls and failures, histories from zero to many units of work",
 "No test exercises the pipeline with failures, stalls, or small pipes; a hang would only show as a timeout on an unlucky schedule.",
 [CC,WK,SUB],[("channel topology and closing order","tallyFanOutFanIn, runWriter, runSpawner, runWaiter, runCacher"),("stdin written, stdout and stderr drained","Subprocess")],None,["termination of the process within a step bound"])
p("C11","Concurrent invocations never corrupt each other's answers",
 "When several invocations run at the same time on the same repository and cache, each one either prints exactly the answer it would print alone and succeeds, or fails with an error message; none prints a wrong answer, crashes or hangs, and a later invocation on its own succeeds with the right answer.",
 ["schedules","histories"],
 "all interleavings of two or three processes at every file operation, equal or different arguments, cold, warm or damaged cache",
 "No test starts two processes.",
 [GOB,CC,CA],[("shared per-repository cache files without locking; validation on read","GobBackend.Open/Get/Add/Close/Clear")],None,["exit status and stdout of each process and of a later run"])
p("C12","Equal questions get byte-identical answers",
 "Two successful invocations with the same arguments, repository, time and environment print byte-for-byte the same output, including the order of rows, the choice among tied authors, and the name shown for an email address used with several names, whatever the scheduling, CPU count above one, cache content, or internal iteration order.",
 ["schedules","configurations","inputs"],
 "all pairs of schedules, map iteration orders, worker counts of at least two, and cache contents, on histories rich in ties and aliases",
 "Tests compare one run with a literal; they do not run anything twice and avoid ties.",
 [TA,TR,BU,CC],[("ranking and tie-breaking","FinalTally.Compare, Rank"),("identity of a combined tally","Tally.Combine")],None,["stdout of two runs"])
p("C13","The number of CPUs does not change the answer",
 "With no path arguments, an invocation limited to one CPU (which works sequentially) prints the same as one with several CPUs (which works in parallel and uses the cache), for every subcommand, mode, filter and history, including an empty selection; both report an empty selection by printing no rows and succeeding.",
 ["configurations","schedules","inputs"],
 "all CPU counts from one upward, subcommands, modes, filters, and selections including empty ones",
 "The stable tests never run the parallel path; the functional test that sets the processor count compares it with nothing.",
 [TAB,TREE,HI,CC,TA,BU],[("two implementations selected by GOMAXPROCS","Table, Tree, Hist; CommitsWithOpts vs tallyFanOutFanIn")],None,["stdout and exit status at different GOMAXPROCS"])
p("C14","Mailmap and ignore list govern every answer, cold or cached",
 "Every subcommand attributes commits to the names and emails that the repository's or the configured mailmap currently gives them, and omits exactly the commits currently named in the repository's ignore-revs file (comments, blank lines and surrounding spaces allowed), in sequential and parallel mode, with a cold cache or one filled under different versions of those files.",
 ["histories","configurations","schedules"],
 "all sequences of edits to the two mailmap sources and the ignore file interleaved with invocations, all subcommands and modes, all schedules",
 "Functional mailmap tests need the test repository and run one command on one mailmap; nothing edits these files between cached runs.",
 ["internal/git/config/files.go","internal/git/config/config.go","internal/git/cmd/cmd.go",CA,CC,"internal/git/git.go"],
 [("mailmap format placeholders and cache key","logFormat/mailmapLogFormat, MailmapHash"),("ignored revisions removed before tallying","IgnoreRevs, SkipIgnored, tallyFanOutFanIn")],None,["stdout after each edit"])
p("C15","Only this repository's own cache directory is ever written",
 "An invocation creates, changes or deletes nothing outside the cache directory belonging to its repository under the user's cache home: not the repository, not other repositories' caches, not other files in the cache home, whatever the repository is called and whatever fails or crashes; with caching disabled by the environment it touches no cache files at all. Two repositories never see each other's cached commits, even when they have the same directory name.",
 ["histories","fault_sequences","configurations"],
 "all repository paths and names (including ones with pattern characters), cache-home settings, multi-repository histories, failures and crashes at any point",
 "Backend tests use one temporary directory; no test looks at what else changes.",
 [GOB,CA],[("per-repository directory named by path hash","GobCacheDir, cacheStorageDir"),("clean-up of stale files, wipe on failure","GobBackend.Close, Clear")],None,["set of file-system mutations"])
p("C16","Clock skew and jumps are harmless",
 "Commits dated after the current time are left out and all others are counted, according to the clock at the time of the invocation, whatever the clock was when the cache was filled; and no clock reading, clock step between or during invocations, or commit date makes an invocation crash, hang or miscount commits that are in the past throughout.",
 ["fault_sequences","histories","schedules"],
 "clock readings before, inside and after the history's date range, steps forward and back between and during runs, cold and warm cache, all subcommands",
 "Tests use the real clock and commits in the past.",
 [PA,BU,HI,CC],[("future commits skipped at parse time","allowCommit"),("timeline end from the current time","Hist, Rebucket")],None,["stdout and exit status"])
p("C17","No invocation ever crashes",
 "Every invocation with valid arguments on a readable repository ends by printing its result with a success status, or by printing an error message with a failure status; it never ends in an unrecovered panic or fatal runtime error, for any history, selection (including none), environment, schedule or fault.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all subcommands and option combinations over all kinds of histories, repository names, path names, empty selections, cache states, faults and schedules",
 "The tests reach a few literal inputs on the happy path.",
 ["main.go",TAB,TREE,HI,BU,TR,GOB,CC],[("explicit handling of empty results","len checks before indexing"),("error returns instead of panics","whole program")],None,["process ending"])
p("C18","Work done once is not done again",
 "After a successful parallel invocation, a later one over the same repository, mailmap and git settings asks git to produce diffs only for selected commits that no earlier successful invocation has processed, as long as the cache has not been damaged, disabled or deleted; this survives changes of subcommand, mode, paths, filters, worker count and time, and resumes after a crash or damage once one invocation has succeeded.",
 ["histories","schedules","crash_points"],
 "all sequences of invocations, new commits in between, all schedules, crashes and damage followed by a successful run",
 "The functional caching test only checks that the cache directory exists.",
 [GOB,CC,CT,WK],[("every parsed commit queued for caching, flushed and compressed before exit","cacheTee, runCacher, GobBackend.Close")],None,["revisions sent to git log by each invocation"])
p("C19","Parsed commits do not depend on how the stream arrives",
 "The parse subcommand lists every selected commit exactly once, oldest first as git orders them, with exactly its author, date, merge status and per-file line counts and final paths, for any file and author names git can store, and dump reproduces git's fields unchanged, however the stream is split, delayed or interleaved with diagnostics; if the stream ends early or is unreadable they fail.",
 ["inputs","schedules","fault_sequences"],
 "all fragmentations of git's output down to single bytes, all delays, truncation at every offset with a failing exit status, all path and author names including ones that look like hashes",
 "The parse tests feed three literal dumps line by line.",
 [PA,SUB,"internal/git/git.go","internal/subcommands/parse.go","internal/subcommands/dump.go"],[("NUL-delimited scanning and the line state machine","StdoutNullDelimitedLines, ParseCommits")],None,["stdout of parse and dump"])
p("C20","Path and revision scoping is exact, even from the cache",
 "With path arguments (files, directories, leading-star suffix patterns, and excludes of these, relative to the current directory) and with revision arguments and ranges, commit counts cover exactly the commits git selects for them, and line and file counts cover exactly those commits' changes to paths in scope, regardless of which other scopes the same commits were fetched and cached under before and of how they were divided among workers.",
 ["histories","inputs","schedules"],
 "all scopes of the supported forms from the root or a subdirectory, sequences of different scopes over one cache, all schedules",
 "Pathspec tests match single strings; nothing checks scoping through the parallel path or the cache.",
 ["internal/git/git.go","internal/git/pathspec.go","internal/git/args.go",WK,CC],[("whole commits fetched and cached, diffs limited afterwards","LimitDiffsByPathspec"),("commit selection by rev-list","RevList")],None,["stdout of table / tree with path and revision arguments"])
p("C21","Merge commits and commits without changes are counted by the rules",
 "Merge commits contribute nothing unless merges are asked for, and then only to commit counts and dates, never to lines or files; commits that change no files count toward commits and dates but never toward files or lines; and commits with neither author name nor email are not counted. This holds in every subcommand, for every division of the history among workers and for commits served from the cache.",
 ["inputs","schedules","histories"],
 "histories with ordinary, octopus and evil merges, empty commits and anonymous commits, all modes with and without merges, cold and warm cache, all schedules",
 "One tally test has a single merge commit in one goroutine.",
 [TA,BU,PA,CC],[("merge and empty-diff handling","TallyCommitsByPath, TallyCommitsByDate"),("set-based commit counting across partial tallies","unionInPlace, Reduce")],None,["stdout"])
p("C22","Git settings of the user never change an answer",
 "The answers of table, tree, hist and parse are those of the repository's history whatever display and limiting settings the user, the machine or the repository has configured for git: colours, date and commit formats, path quoting, relative paths, following renames of single files, hiding the changes of root commits, not applying the mailmap, decorations, signatures, notes, pagers, output encodings. A setting present during one invocation never shows up in a later invocation's answer through the cache, and neither the presence of such a setting nor a warning git prints makes an invocation fail. Settings that say what a change is (rename detection, the diff algorithm, attributes) are outside this property.",
 ["inputs","histories"],
 "random sets of git settings in effect, and warnings printed by git, during some invocations of a history and not during others, in all subcommands, directories and modes, with cold and warm cache, each answer against the reference for a git without settings",
 "No test runs with any git setting.",
 ["internal/git/cmd/cmd.go",PA,CC],[("flags that pin what git prints","logSettings, RunLog, RunStdinLog, RunRevList"),("parsing of git's output","ParseCommits, parseFileDiff")],None,["stdout","exit status"])
p("C23","What cannot be read is never taken for absent",
 "If a file that decides the answer besides the history itself (a mailmap, the list of ignored revisions, the list of a shallow clone's boundary commits) or the current directory exists but cannot be examined or read, or reading it breaks off, the invocation either prints exactly the answer it would print otherwise and succeeds, or exits with a failure status and an error message; it never prints an answer that leaves the file out of account or uses only part of it, and nothing it caches changes the answer of a later invocation.",
 ["fault_sequences","histories"],
 "every operation on these files and every kind of failure, once, repeatedly or for ever, short reads, in every subcommand and mode, with cold and warm cache, followed by healthy invocations",
 "No test has a file that exists and cannot be read.",
 ["internal/git/config/config.go","internal/git/config/files.go","internal/cache/cache.go"],[("detection of the files","DetectSupplementalFiles"),("reading the list of ignored revisions","IgnoreRevs"),("cache disabled when its key cannot be computed","MailmapHash, DiffStateHash, GetCache")],None,["stdout","exit status","cache directory"])
p("C24","Output that could not be written is never passed off as complete",
 "When the standard output cannot take everything an invocation of table --csv, parse or dump has to print (the disk is full, a quota is used up, the device fails), whether from the first byte, in the middle or at the very end, for good or for a moment, the invocation exits with a failure status and an error message; it never succeeds with a part of the output missing. What it cached meanwhile does not change the answer of any later invocation.",
 ["fault_sequences","inputs"],
 "a failure after every number of bytes, for one write, several or all, with every size of history and every mode, cold or warm cache, one CPU or several, followed by healthy invocations",
 "No test has an output that fails.",
 [TAB,"internal/subcommands/parse.go","internal/subcommands/dump.go"],[("errors of buffered writers checked at the end","writeCsv, Parse, Dump")],None,["stdout","stderr","exit status"])
p("C25","Author and date filters select exactly the commits asked for",
 "In every subcommand a commit is counted exactly when its author, as \"name <email>\" after the mailmap, matches at least one of the --author patterns if there are any, matches none of the --nauthor patterns anywhere, and git places it between --since and --until if these are given. The options combine with each other and with revisions, paths and merges, and commits fetched and cached under other filters never change the selection.",
 ["inputs","histories","schedules"],
 "all combinations of repeated author and nauthor patterns with absolute, relative and epoch dates over sequences of invocations sharing a cache, under mailmaps that change, and all schedules",
 "No stable test passes a filter; the functional tests pass one author at a time.",
 ["internal/git/cmd/filters.go","internal/git/cmd/cmd.go",CC,"main.go"],[("filters turned into arguments of git","LogFilters.ToArgs"),("filters applied when the commits are listed, not when their changes are fetched","RunRevList, RunStdinLog")],None,["stdout"])
p("C26","The load on the machine is bounded however long the history",
 "However long the history and however slowly git answers, an invocation never has more git processes at one time than processors (give or take two), never more than a dozen files open, and a number of goroutines in proportion to the processors and not to the history. A git process that has ended is waited for before another takes its place, and when an invocation succeeds no git process that it started is still running.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings, histories of up to hundreds of units of work, git children that start, answer or end late, cold and warm cache, failures of single children",
 "No test looks at what runs at the same time.",
 [CC,WK,SUB,CT],[("fixed number of workers, spawned as needed","runSpawner, runWorker"),("children waited for","Subprocess.Wait")],None,["processes started","files open"])
p("C27","The cache leaves nothing behind and does not grow with use",
 "After an invocation has succeeded on its own with a working disk, and has used the cache for at least one commit, the repository's cache directory holds no more files than the same invocation leaves there when it starts with none, whatever ran before: invocations that were killed, interrupted, cut off by a power failure, failed or ran at the same time, other process numbers, and other versions of the mailmap or of the git settings. Asking the same question again and again, with nothing changed, never makes the cache larger.",
 ["crash_points","histories","schedules","fault_sequences"],
 "invocations killed, interrupted or cut off at every statement and file operation, failing git children, overlapping invocations, changing mailmaps, and then a question asked two to four times, with the same or other process numbers",
 "No test closes a cache that another process or another state of the repository left behind.",
 [GOB,CC],[("removal of files nobody needs any more","GobBackend.Close"),("commits added once","accumulateCached, setDiff")],None,["cache directory"])
# pure functions: not simulation targets
p("N01","Number, date-distance and width formatting",
 "Counts, relative times and author names are formatted for display consistently: thousands separators and abbreviations, time units, and truncation to the column width never exceeding it.",
 ["inputs"],"all integers, times and strings",
 "Tests cover a dozen literal values.",
 ["internal/format/format.go"],[("pure formatting functions","Number, RelativeTime, Abbrev")])
p("N02","Glob matching of pathspecs agrees with git for every pattern",
 "A file change is in scope of an arbitrary wildcard pathspec exactly when git itself would match it.",
 ["inputs"],"all pattern and path strings",
 "Tests cover a table of literal patterns.",
 ["internal/git/pathspec.go"],[("doublestar matching","PathspecMatch")])
open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
