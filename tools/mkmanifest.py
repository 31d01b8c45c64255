#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "checks.json")))
T = {
"C01": ("reference-model monitor over random histories", "Every answer of the index in thousands of random histories is compared with a map model. Held on the histories run; nothing is said about alphabets or sizes not drawn (up to a few thousand words)."),
"C02": ("differential monitor: original against reloaded index", "Complete observation (every node id, lookup, set, count) of original and reloaded index, before and after further common additions."),
"C03": ("differential monitor around Optimize + independent decoder", "Observation before and after each of thousands of optimizations; unused lists are looked for in the saved bytes by an independent decoder of the layout."),
"C04": ("fault enumeration on stored bytes with an independent decoder as oracle, address space and memory watch", "Every proper prefix of small files, sampled cuts of larger ones, every byte of every mark and every length field; a file must be refused when the independent decoder finds it undecodable."),
"C05": ("delivery fault injection on sources, byte-accounting monitor", "All readers under one-byte, random, empty and eof-with-data deliveries; value, success and bytes taken compared with the one-piece delivery."),
"C06": ("write fault injection at every byte, accounting monitor", "Every failure position of values up to 1500 bytes (sampled beyond), as error and as short write, permanent and transient."),
"C07": ("reference-model monitor over random registration histories up to exhausted id ranges", "Both widths, tables and collections; ids resolved again after every growth; id ranges filled to their end."),
"C08": ("round-trip monitor with independent encoding, all sizes round the limits", "Every size class up to and past the maximum count of both widths, every truncation of small sets."),
"C09": ("exhaustive and random execution against plain integer arithmetic", "All 2^16 pairs of 8 bit ids and all 16 bit ids are executed; 32 bit ids at random and at the boundaries."),
"C10": ("reference-model monitor over random registration histories past 256 tags", "Every id and name is resolved after each registration."),
"C11": ("round-trip and refusal monitor", "Random representable registries must come back; every kind of unrepresentable one must be refused."),
"C12": ("Go race detector + linearizability of read-only histories (each answer equals the answer given alone)", "2 to 16 goroutines over random plans of 13 kinds of reads, race build and plain build. Races are only seen where the goroutines' accesses are not ordered in the runs made."),
"C13": ("reference-model monitor over generated dictionaries", "The real loader compiles generated XML (every spelling variant) and the loaded index is compared with the generator's list in both directions, up to every reachable node."),
"C14": ("crash and fault enumeration on the compiling process (file size limits, strace fault and kill injection at system calls, SIGKILL)", "Post-mortem oracle: byte equality with the previous file, or complete load equal to the new dictionary. Power loss (unsynced pages) is not simulated. Without ptrace the system call faults fall back to limits and kills at random instants."),
"C15": ("history monitor on the real updater command against a fault-injecting remote, with kills", "Histories of runs with faults at any request, byte and system call; every compiled file found is identified with a dictionary the remote served."),
"C16": ("inotify event monitor and snapshots of the surroundings", "Every directory around the data path is watched while real loader operations run; only operations that the loader offers are run."),
"C17": ("hostile query monitor (no panic, no false answer, no change)", "Unknown, boundary and random ids on random and empty indexes; saved bytes and observation compared afterwards."),
"C18": ("session monitor on the real inspector process", "Sessions over pipes; everything the index holds is asked for by id and by name, plus hostile lines and reloads of damaged files. Control characters (editing keys of the line reader) are not sent."),
"C19": ("reference-model monitor over registration histories up to exhausted id ranges and file format limits", "Ids resolved after every growth and reload; ranges and sizes driven to their ends."),
"C20": ("model counter monitor after every step of random histories", "Both counts are compared after each single operation."),
"C21": ("byte-equality monitor over repeated saves, loads, lookups and rebuilds", "Detects dependence on map order or time only if it shows up in the repetitions made."),
"C22": ("buffer scribbling monitor (differential: scratch buffer against fresh buffers)", "Every storing operation of the public surface is driven with reused and overwritten buffers."),
"C23": ("round-trip monitor on real files and directories", "Resolved parts must spell the absolute path again; data paths are made from several working directories."),
"C24": ("structural invariant monitor walking the whole tree", "All nodes by all ways of reaching them, at several points of random histories."),
"C25": ("independent encoder and decoder of the file layout as oracle", "Both directions on random contents; the layout is the one of the base commit, written down separately from the code."),
"C26": ("decision-table monitor against a fault-injecting remote", "Combinations of local state and remote answer; requests the remote saw, results and files compared with the expectation."),
"C27": ("differential monitor: histories together against each alone (in a process of its own), race detector", "Turns and goroutines of 2 to 6 indexes; every answer and the saved bytes compared with the run alone. Races are only seen between accesses made in the runs."),
"C28": ("fault injection on generated dictionaries (20 kinds of structural faults at random places), monitor of results and files", "A refusal must leave bytes and listing as they were and a valid dictionary must compile afterwards; tolerated deviations must give the bytes of the clean dictionary."),
"C29": ("decision-table monitor of the real command against a fault-injecting remote", "Flags and spellings x local states x remote answers; exit status, output, requests and files compared with the expectation."),
"C30": ("concurrent load monitor with an order check over the replacements, kills", "Continuous loads by several readers while real compiles, processes and updater runs replace the file; each load is identified with a dictionary and the order must not go back. Two updaters on one data path at the same time are not run (their temporary names are shared by design)."),
"C31": ("resource monitor: descriptors, goroutines and files of a process repeating one operation; live heap and saved size", "Compared between early and late rounds with the collector off for descriptors, so that finalizers do not close what the code left open."),
}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "No hooks are compiled into /repo: the monitors are built as packages below internal/zverif through 'go build -overlay' and observe public behaviour.", "source_commits": []},
     "notes": "Repairs of genuine defects are the commits starting with 'fix:' in /repo, listed in known_findings.jsonl. checks.json configures the parts of each check."}
for p in sorted(checks):
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": checks[p]["level"], "level_note": T[p][1]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
