#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": hook}})

IDX = "internal/index/"
p("C01", "Lookup returns exactly what was indexed",
  "After any sequence of adding words and attaching tag sets to them, looking a word up by string or by runes returns a node that spells exactly that word and carries exactly the tag sets attached to it (each set as a set of known tags with their registered parents, no set missing, foreign or repeated). A string that is neither an indexed word nor a prefix of one is reported as not found; a bare prefix is found with no tag sets. Attaching a tag set that names an unknown tag is refused and changes nothing, and attaching an empty one gives the word no tags of any other word.",
  ["inputs", "histories"], "every word list over any Unicode alphabet, every tag inventory and every interleaving of additions, tag attachments (also through node handles taken earlier) and lookups",
  "The tests add at most two ASCII words and one tag set; they never compare the tag sets read back, never mix words that share prefixes and tag sets, and never exceed one growth step of the node array.",
  [IDX+"idx.go", IDX+"node.go", IDX+"items.go", IDX+"tagset_index.go", IDX+"variant_idx.go"],
  [("trie insertion and lookup", IDX+"idx.go AddToNode/FetchFromItem"), ("tag set attachment", IDX+"node.go AddTagSet/TagSets"), ("node array growth", IDX+"items.go NewChild")],
  [{"name": "items", "meaning": "trie nodes by id", "where": IDX+"items.go"}, {"name": "collectionIdx", "meaning": "lists of tag sets shared by words", "where": IDX+"idx.go"}],
  ["FetchString/FetchRunes/TagSets/Word results"])
p("C02", "A saved index loads back as the same index",
  "Writing an index and reading the bytes into a new index gives an index that answers every question the original answers, identically: word lookups, misses, tag sets, tag ids, node ids, children, word and node counts. The loaded index also stays as usable as the original: the same further additions made to both keep them identical.",
  ["inputs", "histories"], "every index content (including words starting with unusual runes, up to 255 tags, long words) and every history split into parts before and after the reload",
  "Round trips are tested only for isolated tables with one or two entries; no test writes or reads a whole index, and none continues to use one after loading.",
  [IDX+"idx.go", IDX+"items.go", IDX+"item_def.go", IDX+"tagset_index.go", IDX+"variant_idx.go", "pkg/dag/idx.go"],
  [("section writers and readers", IDX+"idx.go BinaryWriteTo/BinaryReadFrom"), ("children map rebuild", IDX+"idx.go rebuildChildrenIndex")],
  [{"name": "childrenMap", "meaning": "per-node child lookup, not stored in the file", "where": IDX+"idx.go"}], ["complete observation of original and loaded index"])
p("C03", "Optimizing never changes any answer",
  "Optimizing an index leaves every lookup, every tag set of every word, every node id, tag id and count exactly as before, whatever was added before and between optimizations. Afterwards the index stores no list of tag sets that no word uses, and optimizing again changes nothing.",
  ["inputs", "histories"], "every index content and every interleaving of additions, saves, loads and optimizations",
  "No test calls the optimizer at all.",
  [IDX+"idx.go", IDX+"variant_idx.go"],
  [("unused collection elimination and node renumbering", IDX+"idx.go Optimize")], None, ["observation before and after", "saved bytes decoded by an independent decoder"])
p("C04", "A truncated or damaged compiled index is refused",
  "Reading a compiled index of which only a proper prefix is present, whose section marks are altered, or which announces more entries than its data holds, returns an error; it never succeeds with partial content, never panics and never exhausts memory. The same holds for loading such a file from disk through the dictionary loader and for the tag registry and tag definitions on their own.",
  ["inputs", "fault_sequences"], "every truncation point of every compiled index, every altered section mark, every inflated length field",
  "Tests truncate a tag list at two points only; no test reads a truncated index, and truncation inside a multi-byte value is never tried.",
  [IDX+"idx.go", IDX+"items.go", "pkg/dag/idx.go", "pkg/dag/name.go", "pkg/opencorpora/loader.go"],
  [("section marks", IDX+"idx.go read*Definitions"), ("length-prefixed sections", IDX+"*.go BinaryReadFrom")], None, ["error result of the read"])
p("C05", "Reading does not depend on how the source delivers bytes",
  "Every reader of stored data (identifier sets, tag names, tags, tag registry, tag sets, whole index) produces the same value and the same success from the same bytes, whether the source hands them over at once, one byte at a time, in arbitrary pieces, with empty reads in between, or together with the end-of-file indication. It takes from the source exactly the bytes of the value, so values stored one after another are read back one after another. An error of the source before the last byte of a value is reported, whether or not the source goes on afterwards.",
  ["inputs", "schedules"], "every value and every legal sequence of reads a source may deliver",
  "Every test reads from an in-memory buffer that returns all requested bytes in one call.",
  ["pkg/storage/set8.go", "pkg/storage/set16.go", "pkg/dag/name.go", "pkg/dag/idx.go", IDX+"idx.go", IDX+"tagset_def.go"],
  [("ReadFrom/BinaryReadFrom implementations", "pkg/storage/set8.go, pkg/storage/set16.go, pkg/dag/idx.go, "+IDX+"idx.go")], None, ["value, error and bytes consumed"])
p("C06", "A failing or short write is always reported",
  "If the destination stops accepting data at any byte, by an error or by a short write, writing an identifier set, a tag registry or an index returns an error; success is only reported when every byte was accepted. The byte counts that set writers report equal the bytes the destination accepted.",
  ["fault_sequences", "inputs"], "every value and every failure position and kind of the destination",
  "Tests only write to memory buffers, which never fail.",
  ["pkg/storage/set8.go", "pkg/storage/set16.go", "pkg/dag/idx.go", "pkg/dag/tag.go", "pkg/dag/name.go", IDX+"idx.go"],
  [("error propagation of every write", "all BinaryWriteTo/WriteTo methods")], None, ["error and count returned", "bytes seen by the destination"])
p("C07", "Set ids are stable, unique and resolvable",
  "In the set tables and collections, indexing a set returns an id that from then on always resolves to exactly that set; indexing an equal set again, in any element order, returns the same id, and different sets never share an id. Searching agrees with indexing, reports not-found (without failing) for sets of any size that were never indexed, and ids that were never handed out resolve to not-found. When an id range is exhausted a new set is refused rather than given an id that means another set.",
  ["inputs", "histories"], "every sequence of index, find and get calls on sets of any size and order, up to and past the capacity of the 8 and 16 bit ids",
  "Tests use tables of at most four sets with sorted elements; no capacity boundary, no search for a set longer than any stored, no repeated or permuted insertion history.",
  ["pkg/storage/table8.go", "pkg/storage/table16.go", "pkg/storage/collection8.go", "pkg/storage/collection16.go", "pkg/storage/set8.go", "pkg/storage/set16.go"],
  [("normalise, search, append", "pkg/storage/table8.go Index, table16.go Index"), ("column by set size", "pkg/storage/collection8.go, collection16.go")], None, ["ids and sets returned"])
p("C08", "Identifier sets survive serialization at every size",
  "Writing an 8 or 16 bit identifier set and reading it back yields the same elements in the same order for every size the format can express, consuming and reporting exactly the bytes written, as a big-endian count followed by big-endian elements. A set too large for the count is refused when written, never stored as a different set. Reading truncated data reports an error. A copy of a set stays what it was when another set is read into the same variable.",
  ["inputs"], "every set of every size from empty to past the maximum count, with any element values, and every truncation",
  "Tests cover at most five small elements; never a multi-byte value above 255, never sizes at or beyond the count's limit, and truncation only at element boundaries.",
  ["pkg/storage/set8.go", "pkg/storage/set16.go"],
  [("length prefix and element encoding", "pkg/storage/set8.go WriteTo/ReadFrom, set16.go WriteTo/ReadFrom")], None, ["bytes, counts, errors"])
p("C09", "Packed ids take apart into what they were made of",
  "Combining an upper and a lower id gives a packed id whose upper and lower parts are exactly those values, and recombining the parts of any packed id gives it back, for 8-in-16 and 16-in-32 bit ids and for the tag set and variant ids built on them. Sets order and compare by element value: sorting yields the same elements in ascending order, and equality holds exactly for element-wise equal sets.",
  ["inputs"], "all 2^16 pairs of 8 bit ids, all 16 bit ids, 16 bit pairs and 32 bit ids, all sets",
  "Tests sample a handful of constants.",
  ["pkg/storage/id8.go", "pkg/storage/id16.go", "pkg/storage/id32.go", "pkg/storage/set8.go", "pkg/storage/set16.go", IDX+"tagset_id.go", IDX+"variant_id.go"],
  [("shift and mask", "pkg/storage/id16.go, pkg/storage/id32.go")], None, ["values returned"])
p("C10", "Tag ids are dense, permanent and first-come",
  "The tag registry numbers tags 0, 1, 2, ... in order of first registration; registering a known name again returns its id and changes neither its parent nor any other entry. Finding a name and getting an id are inverse to each other, unknown names and ids are reported as not found, and an omitted parent is recorded as the empty-tag name. A registry whose ids are exhausted refuses a new name rather than returning another tag's id.",
  ["inputs", "histories"], "every sequence of registrations and queries, up to and past 256 tags, with any names and parents",
  "Tests register at most three tags and never reach the id limit.",
  ["pkg/dag/idx.go", "pkg/dag/tag.go", "pkg/dag/tagset.go"],
  [("search then append", "pkg/dag/idx.go Index/Find/Get, NewIndex")], None, ["ids, tags, length"])
p("C11", "The tag registry survives serialization or is refused",
  "Writing a registry of valid tags and reading it back yields the same names, parents and ids, with empty names and the empty-tag name both coming back as the empty-tag name; tag names and single tags survive likewise. A registry that cannot be represented (a name that is not four bytes, more tags than the count can hold) is refused with an error when written instead of being stored as something else.",
  ["inputs"], "every registry of 0 to more than 255 tags with any names and parents, every four-byte name",
  "Tests write and read at most two tags, and never read back what was written.",
  ["pkg/dag/name.go", "pkg/dag/tag.go", "pkg/dag/idx.go"],
  [("fixed-width names", "pkg/dag/name.go MarshalBinary/UnmarshalBinary"), ("count byte", "pkg/dag/idx.go BinaryWriteTo/BinaryReadFrom")], None, ["bytes, values, errors"])
p("C12", "Concurrent lookups are safe and correct",
  "On an index that is no longer being modified, whether built in memory, loaded or optimized, any number of goroutines may look up words, prefixes and unknown strings, read tag sets, spell nodes, list children and save the index at the same time without data races or crashes, and each gets exactly the answer it would get alone. The same holds for searching and reading set tables and the tag registry.",
  ["schedules", "inputs"], "all interleavings of concurrent read operations on any index",
  "Tests are single-threaded apart from independent parallel subtests, and do not run under the race detector.",
  [IDX+"idx.go", IDX+"node.go", IDX+"items.go", "pkg/storage/table8.go", "pkg/dag/idx.go"],
  [("lookups do not write shared state", IDX+"idx.go FetchFromItem/FetchItemFromParent")],
  [{"name": "childrenMap", "meaning": "shared map read by every lookup", "where": IDX+"idx.go"}], ["race detector reports", "results of each operation"])
p("C13", "Compiling a dictionary keeps exactly its word forms and tags",
  "Compiling a dictionary XML file and loading the result gives an index in which each word form of each lemma is found with exactly the tag sets 'lemma tags plus form tags' listed for it anywhere in the file, forms listed repeatedly or by several lemmata accumulating theirs; nothing else is a word, and all declared grammemes with their parents are known in file order. Links, restrictions, comments, formatting and attribute order do not matter. The compiled file is optimized: it holds no list of tag sets that no word uses.",
  ["inputs"], "every well-formed dictionary, with any number of lemmata, homonyms, repeated forms, tag combinations and any Unicode words",
  "No test parses any dictionary; the loader tests need the network and only download.",
  ["pkg/opencorpora/parser.go", "pkg/opencorpora/loader.go", "pkg/opencorpora/lemma_item.go", "pkg/opencorpora/form_item.go", "pkg/opencorpora/xmlutils.go"],
  [("element handlers", "pkg/opencorpora/parser.go"), ("compile pipeline", "pkg/opencorpora/loader.go ParseUpdate/SaveIndex/LoadIndex")], None, ["loaded index versus the generator's own list"])
p("C14", "A failed or interrupted compile keeps the previous index",
  "If compiling or saving a dictionary fails (malformed or truncated XML, unknown tag, destination error) or the process dies at any moment, the compiled index file is afterwards either the complete previous one or the complete new one, or still absent if there was none: never missing after having existed, never partial. A failure is reported as an error.",
  ["crash_points", "fault_sequences", "inputs"], "every failing input, every write position at which the destination fails, every instant at which the process is killed while compiling",
  "Tests never save an index, and no test injects a failure or a crash.",
  ["pkg/opencorpora/loader.go"],
  [("index saving", "pkg/opencorpora/loader.go SaveIndex/ParseUpdate")], None, ["compiled file content after the event"])
p("C15", "The updater recovers from every interruption",
  "Whatever mixture of network failures, error statuses, dropped downloads, kills and remote dictionary changes happened before, a forced update against a reachable remote that reports success leaves a compiled index of the current remote dictionary, and an update without force does so too or reports an error. No partial or error-page download is ever taken for a dictionary, and a compiled index, once present, is always a complete index of some dictionary the remote served.",
  ["fault_sequences", "crash_points", "histories"], "every history of update runs with faults at any request, any byte of the download, unpacking or compiling, and any remote changes in between",
  "The only tests call the real network once and check no content.",
  ["pkg/opencorpora/loader.go", "cmd/opencorpora_update/main.go"],
  [("update state machine", "pkg/opencorpora/loader.go Update/DownloadUpdate/UnpackUpdate/ParseUpdate")], None, ["files under the data path after each run", "exit status"])
p("C16", "The loader stays inside its data path",
  "All files the dictionary loader creates, replaces or removes lie under the data path it was given (the default one when none is given), and it creates that directory when needed; nothing is written elsewhere, including the working directory. A successful run leaves only the downloaded, unpacked and compiled dictionary there.",
  ["configurations", "fault_sequences"], "every data path (nested, not yet existing, relative, absolute), every loader operation, successful or failing",
  "Tests only use the default path and do not look at what was written.",
  ["pkg/opencorpora/loader.go", "pkg/common/utils.go"],
  [("path building", "pkg/opencorpora/loader.go filePath, pkg/common/utils.go")], None, ["file system before and after"])
p("C17", "Queries with unknown ids or handles never crash",
  "Asking an index for a node, tag, tag set, variant list, children or continuation by an id that does not exist, or asking the root for its word, text or tag sets, yields an error, a not-found or an empty answer, never a panic, and leaves the index unchanged. For every existing id the answer is the one the index was built with, and a node's text form is valid text naming its word.",
  ["inputs"], "every 32 bit id on every index, including an empty one, and every existing node",
  "Tests query existing ids and, for two tables only, one id past the end.",
  [IDX+"idx.go", IDX+"node.go", IDX+"variant_idx.go", IDX+"tagset_index.go", "pkg/dag/idx.go"],
  [("bounds checks", IDX+"idx.go Get/Variants/GetChildrenMap, "+IDX+"tagset_index.go Get, pkg/dag/idx.go Get")], None, ["results, recovered panics"])
p("C18", "The inspector survives and answers any command",
  "The interactive index inspector answers every command line, valid or not, with the requested data or a message and goes on to the next one; no input line makes it crash or end except the exit command and the end of input. Its word search and its node, tag, tag set and variant commands show what the loaded index holds, for every existing id including the first and the last, and by-name queries find what by-id queries show.",
  ["inputs", "histories"], "every sequence of command lines (any subcommand, any argument, negative, huge, hexadecimal or non-numeric) on any index",
  "The inspector has no tests.",
  ["cmd/opencorpora_test/main.go"],
  [("command dispatch and argument checks", "cmd/opencorpora_test/main.go processInput and process*")], None, ["process output and exit status"])
p("C19", "Tag set and variant ids are stable, unique and resolvable",
  "In the index's tag set and variant registries, registering a set of tags (or a list of tag sets) returns an id that always resolves to exactly that content; registering equal content in any order returns the same id and different contents never share one. Searching agrees with registering, the empty set is never confused with a registered one, adding a tag set to a list adds exactly that one, and an exhausted id range or a size the file format cannot hold is refused instead of being stored as something else. What the ids and the format have room for is not refused.",
  ["inputs", "histories"], "every sequence of registrations and queries of sets of any size and order, up to and past the 16 bit id and the 8 bit size limits, also after a save and load",
  "Tests register a few sorted sets of increasing size once; no duplicates, permutations, boundaries or histories.",
  [IDX+"tagset_table.go", IDX+"tagset_index.go", IDX+"tagset_def.go", IDX+"variant_table.go", IDX+"variant_idx.go", IDX+"variant_def.go"],
  [("normalise, search, append", IDX+"tagset_table.go Index, "+IDX+"variant_table.go Index"), ("table by size", IDX+"tagset_index.go, "+IDX+"variant_idx.go")], None, ["ids and contents returned"])
p("C20", "Word and node counts are exact",
  "At every moment the node count equals the number of distinct non-empty prefixes of everything added, and the word count equals the number of distinct words that carry at least one tag set. Adding something already present, failed operations, lookups, saving, loading and optimizing never change either count wrongly.",
  ["histories", "inputs"], "every history of additions, tag attachments, lookups, failed operations, saves, loads into new or used indexes, and optimizations",
  "Node counts are tested on at most two words, the word count on one; never after loading or optimizing.",
  [IDX+"idx.go", IDX+"node.go", IDX+"items.go"],
  [("wordsCount bookkeeping", IDX+"node.go AddTagSet, "+IDX+"idx.go rebuildChildrenIndex"), ("nextID bookkeeping", IDX+"items.go")], None, ["WordsCount, NodesCount"])
p("C21", "Saving is deterministic and has no side effects",
  "Saving the same index twice gives identical bytes, loading and saving again gives identical bytes, building the same content by the same steps gives identical bytes, and compiling the same dictionary file twice gives identical files. Saving changes nothing observable in the index, lookups (successful or not) never change what would be saved, and loading into an index that already held data leaves only the loaded data.",
  ["inputs", "histories"], "every index content and history, repeated saves, loads and lookups in any order",
  "No test saves an index or compares saved bytes.",
  [IDX+"idx.go", IDX+"items.go", "pkg/opencorpora/loader.go"],
  [("ordered section writers", IDX+"idx.go BinaryWriteTo"), ("replacement on load", IDX+"idx.go BinaryReadFrom")], None, ["saved bytes"])
p("C22", "Stored data is independent of the caller's buffers",
  "After a set of ids, a set of tags, a list of tag sets, a tag list or a word given as runes has been stored, the caller may overwrite or reuse the memory it passed without changing what is stored, what its id resolves to, or what is found. Reusing one scratch buffer for many insertions gives the same result as fresh buffers. Words given as runes, tag names attached and tags listed are left as they were given, and a set, list or table copied from a variable stays what it was when another one is read into that variable.",
  ["histories", "inputs"], "every sequence of insertions with buffers that are shared, reused or overwritten afterwards",
  "Tests pass fresh literals and never touch them again.",
  ["pkg/storage/table8.go", "pkg/storage/table16.go", "pkg/dag/idx.go", IDX+"tagset_table.go", IDX+"variant_table.go", IDX+"variant_idx.go", IDX+"node.go"],
  [("copy on insertion", "pkg/storage/table8.go Index, "+IDX+"tagset_table.go Index, "+IDX+"variant_table.go Index")], None, ["stored contents after buffer reuse"])
p("C23", "File paths are resolved faithfully",
  "Resolving an existing path yields a directory, a base name and an extension that together spell the absolute path again, whatever dots and separators it contains; a missing path is reported as an index error. Data paths of a domain and of its files lie directly under the data directory, and creating a domain's data path makes that directory usable and may be repeated.",
  ["inputs", "configurations"], "every path with any number of dots, hidden names, nested or relative components, existing or not",
  "These functions have no tests.",
  ["pkg/dag/utils.go", "pkg/common/utils.go"],
  [("split, extension, stat", "pkg/dag/utils.go ResolveFilePath"), ("joining", "pkg/common/utils.go")], None, ["components, errors, file system"])
p("C24", "Nodes form one consistent tree",
  "The nodes of an index form a tree: ids are dense, every node's word is its parent's word plus its own letter, the children listed for a node are exactly the one-letter extensions present, and following a word letter by letter, looking it up at once, looking its remainder up from an inner node, and getting the node by id all lead to the same node. Adding a continuation to an inner node is the same as adding the whole word, in any order of additions, and the ids of existing nodes never change.",
  ["histories", "inputs"], "every set of words added in any order, from the root or from inner nodes, before and after save, load and optimize",
  "Tests check parents and ids only in commented-out assertions.",
  [IDX+"idx.go", IDX+"items.go", IDX+"node.go"],
  [("child linking", IDX+"idx.go AddToNode, "+IDX+"items.go NewChild"), ("rebuild on load", IDX+"idx.go rebuildChildrenIndex")], None, ["Children, GetChildrenMap, Get, Word, Item"])
p("C25", "The compiled index format stays compatible",
  "Index files follow one fixed layout: four marked sections with tags, tag sets, tag set lists and nodes, with big-endian fields of fixed widths. A file written by that layout independently of this code loads to the content it describes, and a file this code writes decodes, independently of this code, to the content of the index; the same is true for the stored tag registry and identifier sets. Dictionaries compiled by earlier builds therefore stay loadable.",
  ["inputs"], "every index content, in both directions, against an independent encoder and decoder of the layout",
  "Tests fix bytes for a few isolated tables only; a symmetrical change of writer and reader passes every round-trip test.",
  [IDX+"idx.go", IDX+"items.go", IDX+"item_def.go", IDX+"tagset_table.go", IDX+"variant_table.go", IDX+"variant_def.go", "pkg/dag/idx.go", "pkg/dag/name.go"],
  [("section marks and field widths", IDX+"idx.go and the BinaryWriteTo/BinaryReadFrom methods")], None, ["file bytes in both directions"])
p("C26", "Updates are fetched exactly when needed",
  "An update is wanted if and only if there is no local copy or the reachable remote copy is newer than the local one; a remote that cannot be reached, answers with an error status or cannot be compared never causes a crash. When no update is wanted or the check fails nothing is downloaded and no local file changes, and a download or unpacking that does not complete with success leaves any previous file as it was and reports an error, as does every operation on a data path that cannot be made. Whether the downloaded and the unpacked file exist is answered truly.",
  ["inputs", "fault_sequences", "configurations"], "every combination of local state, status code, modification header (present, absent, malformed, older, equal, newer) and transport failure",
  "The single test depends on the live network and one local state.",
  ["pkg/opencorpora/loader.go"],
  [("freshness decision", "pkg/opencorpora/loader.go IsUpdateRequired"), ("download", "pkg/opencorpora/loader.go DownloadUpdate")], None, ["requests seen by the transport, files, results"])

p("C27", "Separate indexes do not influence each other",
  "Each index, tag registry, tag set table and list collection keeps content of its own: what is added to, optimized in, loaded into or asked of one never changes another's answers or saved bytes, also when both were loaded from the same bytes or given the same arguments. Different indexes can be used in different goroutines at the same time, each by its own goroutine, without data races, and each gives exactly the results it gives when it is the only one in the process. That includes indexes compiled from dictionaries by different loaders at the same time, and indexes saved at the same time to different files of one directory.",
  ["histories", "schedules", "inputs"], "every interleaving of the histories of two or more indexes, in one goroutine and in several",
  "No test has two indexes at a time; package level state, shared backing arrays and shared defaults only show when one index is used while another one changes.",
  [IDX+"idx.go", IDX+"node.go", IDX+"tagset_index.go", IDX+"variant_idx.go", "pkg/dag/idx.go", "pkg/storage/table8.go", "pkg/storage/table16.go"],
  [("construction", IDX+"idx.go New"), ("loading", IDX+"idx.go BinaryReadFrom")], None, ["complete observation and saved bytes of each index against the same history run alone"])
p("C28", "Malformed dictionaries are refused",
  "Compiling a dictionary that is well-formed XML but no valid dictionary is refused with an error: an element that does not belong where it stands, a missing or non-numeric required attribute, an empty word form, a tag name that is not four bytes or was not declared, more tags than there are ids for, another root element. It is refused wherever in the file the fault stands; the previous compiled index stays as it is, nothing is left behind, and the same loader goes on to compile a valid dictionary. Unknown attributes and stray text are no faults and change nothing in the compiled index.",
  ["inputs", "histories"], "every kind of structural fault at every place of every dictionary, before and after valid ones",
  "The parser tests give one valid element of each kind.",
  ["pkg/opencorpora/loader.go", "pkg/opencorpora/parser.go", "pkg/opencorpora/dictionary.go", "pkg/opencorpora/form_item.go", "pkg/opencorpora/category_item.go", "pkg/dag/name.go"],
  [("element dispatch and attribute checks", "pkg/opencorpora")], None, ["ParseUpdate result, compiled file bytes, directory listing"])
p("C29", "The update command means what its flags and exit status say",
  "The update command exits with status 0 if and only if it did what was asked, all spellings of a flag mean the same, and the debug flag changes nothing but the output: -h shows the usage and touches nothing, unknown flags and malformed flag values are refused with nothing done. Unforced, it changes nothing when no update is wanted, and reports an error and changes nothing when the check for an update fails; when an update is wanted the dictionary is fetched once and compiled into the data path given. A run that fails after the download keeps it, and the next one goes on with it; a download that is no sound archive is an error that leaves the unpacked file and the index as they were, and is fetched anew by the next run. Forced, it fetches when there is something to fetch, and when the check for an update fails it rebuilds the index from what is there, as it does when there is nothing new.",
  ["configurations", "fault_sequences", "inputs"], "every combination and spelling of flags with every state of the data path and every answer of the remote",
  "The command has no tests.",
  ["cmd/opencorpora_update/main.go", "pkg/opencorpora/loader.go"],
  [("flag handling and exit", "cmd/opencorpora_update/main.go"), ("update decision", "pkg/opencorpora/loader.go Update")], None, ["exit status, output, requests seen by the remote, files"])
p("C30", "Loading while the index is being replaced gives a complete index",
  "Whoever loads the compiled index at any time while it is being rebuilt - by the same process, by another one, or by the update command, also one that is killed - gets a complete index of one of the dictionaries compiled so far, never a mixture, a part, an error or no file; and a reader never sees an older one after a newer one.",
  ["schedules", "crash_points", "histories"], "every instant of a load against every instant of a rebuild, for any number of readers",
  "Tests load nothing that is being written.",
  ["pkg/opencorpora/loader.go"],
  [("replacement of the compiled file", "pkg/opencorpora/loader.go ParseUpdate"), ("load", "pkg/opencorpora/loader.go Load")], None, ["each load identified with a compiled dictionary and its place in the order of replacement"])
p("C31", "Repeated operations leak nothing",
  "However often an operation is repeated, successful or failing, it keeps no file, connection or goroutine behind and leaves no file beside the ones it is meant to make; and operations that add nothing new (lookups, known words, known tag sets, known tags, refused additions, optimizing, saving, loading into the same index) let neither the memory of the index nor its saved size grow.",
  ["histories", "fault_sequences"], "every operation of loader and index, with every outcome, repeated any number of times",
  "Tests perform an operation once and do not look at what stays behind.",
  ["pkg/opencorpora/loader.go", IDX+"idx.go", IDX+"node.go", IDX+"tagset_index.go", IDX+"variant_idx.go", "pkg/dag/idx.go"],
  [("closing of files and responses", "pkg/opencorpora/loader.go"), ("temporary files", "pkg/opencorpora/loader.go ParseUpdate, DownloadUpdate, UnpackUpdate"), ("reuse of registered values", IDX+"tagset_index.go, "+IDX+"variant_idx.go")], None, ["open descriptors, goroutines, directory listings, live heap, saved size"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
