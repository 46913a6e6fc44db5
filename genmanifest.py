#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
notes = {
 "C01": "Every table is compared row by row with an independent reference tally over the history as git reports it.",
 "C02": "Every tree is compared node by node with an independent reference tree.",
 "C03": "Every timeline is compared bucket by bucket with an independent reference; step bound for termination.",
 "C04": "Sequences of invocations sharing a cache, each compared byte by byte with the same one on an empty cache.",
 "C05": "Kills and power cuts at seeded points (statements, file operations, git events), then healthy invocations compared with an empty cache.",
 "C06": "Seeded damage to the stored cache, also inside the compressed stream; answers and later reuse are checked.",
 "C07": "Seeded failures of operations on the cache's files; answer right or clean failure, next run right.",
 "C08": "Seeded failures of git processes and their streams; a run must not succeed once a git it depends on failed.",
 "C09": "Failing git processes, then healthy runs compared with an empty cache.",
 "C10": "Small pipes, slow and failing git, starved schedules; deadlock detection and a bound on steps.",
 "C11": "Two to four invocations interleaved in one world; right answer or clean failure, and a right answer afterwards.",
 "C12": "The same question under several schedules, map orders, CPU counts and cache contents; outputs byte-equal.",
 "C13": "The same question with 1 CPU and with several; outputs byte-equal.",
 "C14": "Mailmap and ignore list edited between invocations; reference tally under the current files.",
 "C15": "Every change to the simulated file system attributed to its process and compared with the repository's own cache directory.",
 "C16": "Clock readings, steps and jumps between and during runs; reference tally under the clock at the time.",
 "C17": "All generators and faults; no panic or fatal runtime error.",
 "C18": "Commits handed to git for diffs, over histories of invocations, against the set already processed.",
 "C19": "Parse and dump output against git's own fields under fragmented, delayed, truncated and failing streams.",
 "C20": "Path and revision arguments against the reference scope, with caches filled under other scopes.",
 "C22": "Random git settings in effect for some invocations of a history; reference answers of a git without settings.",
 "C21": "Histories rich in merges and empty commits against the reference tally.",
}
notes["C23"] = "Seeded failures of reading the mailmaps, the ignore list, the shallow file and the working directory; answer right or clean failure, later runs right."
notes["C24"] = "Seeded failures of standard output after any number of bytes in table --csv, parse and dump; failure with a message unless nothing was lost."
notes["C25"] = "Random author, nauthor, since and until filters over histories of invocations against a reference that matches authors itself."
notes["C26"] = "Peaks of git processes, open files and goroutines over many units of work with slow and failing git; no git left running after success."
notes["C27"] = "Crashes, failures, overlaps and changing mailmaps, then one question several times; number and size of the files in the repository's cache directory."
props = [json.loads(l) for l in open('properties.jsonl')]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks in /repo: the checks rewrite a copy of /repo's working tree at the source level, in a temporary directory, so that scheduling, channels, maps, clocks, files and processes go through the simulator. ./replay.sh FILE replays a violation.",
}
na = {
 "N01": "Pure formatting of one value: no schedule, time source, I/O or fault takes part, so simulation adds nothing over unit tests or fuzzing.",
 "N02": "Pure matching of one string against one pattern: no schedule, time source, I/O or fault takes part.",
}
for p in props:
    i = p["id"]
    if i in notes:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection, seeded search",
            "level": "exploration",
            "level_note": notes[i] + " Assurance is that of seeded search: no violation in the scenarios explored. Trusts the simulator's model of goroutines, pipes and the file system, the reference model, and git's own answers.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na[i]})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
