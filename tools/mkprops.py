#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("E01", "File systems resolve by name and a coherent default always exists",
 "After any history of registrations and unregistrations, a name lookup finds exactly the file systems currently registered, registering under a name in use keeps the file system that already has the name and changes nothing but its default status, and operations naming a registered file system reach that one. While at least one file system is registered there is a default that is itself registered: the first registered one, the one most recently made default, or, when the default is removed or demoted, another registered one if there is any. Operations with no name go to the default, and with nothing registered every operation reports that no file system is available.",
 ["histories"], "every sequence of register (default or not, fresh or duplicate name, re-register), unregister, unregister-all and lookups over several file systems and shims",
 "The test programs register two or three file systems once, in one order, and never unregister or re-register; they compare nothing.",
 ["src/evfs.c"], [("evfs_register", "src/evfs.c"), ("evfs_unregister", "src/evfs.c"), ("evfs_find_vfs / evfs__get_vfs", "src/evfs.c"), ("evfs_unregister_all", "src/evfs.c")],
 [("s_vfs_list", "linked list of registered file systems", "src/evfs.c"), ("s_default_vfs", "current default", "src/evfs.c")],
 ["return codes and which backing file system received each call"])

prop("E02", "Path normalization and absolute conversion are canonical",
 "For every path, normalization yields the canonical form: minimal root, single separators, no '.' component, every '..' component removed together with the component before it (kept only at the front of a relative path, dropped at the root), no trailing separator, and components that merely begin with dots left untouched. It is idempotent, independent of how many components there are, and gives the same text when the output buffer is the input buffer. Absolute conversion equals normalizing the path joined to the current directory, for relative and absolute paths, in place or with separate output.",
 ["inputs"], "all path strings (any length, any mix of separators, dots, components, more than 32 components) on any current directory, with separate output buffers and in place",
 "No test compares a path result; the interesting cases (32+ components, overlap, dots-prefixed names, leading '..' chains) need enumeration.",
 ["src/evfs_path.c", "src/util/range_strings.c"], [("evfs_vfs_path_normalize", "src/evfs_path.c"), ("path_normalize_long", "src/evfs_path.c"), ("evfs_vfs_path_absolute", "src/evfs_path.c")])

prop("E03", "Path construction never overruns its output and never truncates silently",
 "Joining, normalizing, converting to absolute form and reading the current directory never write outside the output range they were given, for any input and any output size. When the complete result with its terminator does not fit (or exceeds the library's path limit where one applies), an error is returned; success is only ever reported together with the complete, terminated result.",
 ["inputs"], "all inputs and all output capacities, in particular the exact-fit sizes one below, at and one above the result length",
 "Tests only use 256-byte buffers and short paths; boundary capacities are never tried.",
 ["src/evfs_path.c", "src/util/range_strings.c"], [("evfs_vfs_path_join", "src/evfs_path.c"), ("range_cat_* helpers", "src/util/range_strings.c"), ("evfs_vfs_path_absolute temp buffer logic", "src/evfs_path.c")])

prop("E04", "Splitting a path loses nothing: directory, name and extension parts agree",
 "For every path, the name part is exactly the text after the last separator, the directory part is a prefix of the path holding everything before it (a root keeps its separators), and joining the two designates the same file as the original path. The extension is the name's suffix from its last period when that period is preceded by at least one character other than a period in the name, and empty otherwise. Stepping through a path component by component yields exactly its components in order, and a path is absolute exactly when it has an absolute root component.",
 ["inputs"], "all path strings, including empty, root-only, trailing separators, leading periods, both separator characters",
 "No test checks any split result.",
 ["src/evfs_path.c"], [("evfs_path_basename", "src/evfs_path.c"), ("evfs_vfs_path_dirname", "src/evfs_path.c"), ("evfs_path_extname", "src/evfs_path.c"), ("evfs_vfs_scan_path", "src/evfs_path.c"), ("m_path_root_component", "src/evfs.c")])

prop("E05", "A jail never lets an operation reach outside its root",
 "Whatever sequence of operations a caller performs through a jail, every path the jail hands to the file system below designates the jail root or something beneath it, for both paths of a rename and after any change of current directory. A path that cannot be represented (too long) is refused with an error and nothing below is touched.",
 ["inputs", "histories"], "all paths ('..' chains, mixed separators, over-long, dots-prefixed names, absolute and relative) and all histories of operations and current-directory changes, for absolute and relative jail roots and nested jails",
 "test_jail runs one fixed script without comparing anything; containment is a statement about every path and history.",
 ["src/shim_jail.c", "src/evfs_path.c"], [("unjail_path", "src/shim_jail.c"), ("jail__rename", "src/shim_jail.c"), ("jail__set_cur_dir", "src/shim_jail.c")],
 [("jail_root", "directory all paths are confined to", "src/shim_jail.c"), ("cur_dir", "the jail's current directory", "src/shim_jail.c")],
 ["the path arguments received by the base file system"])

prop("E06", "A jailed file system behaves as if its root directory were the whole tree",
 "Every operation through a jail has the same result and the same effect as the operation applied directly to the file system below on the corresponding path under the jail root; in particular names inside are found and nothing else is visible. The jail keeps its own current directory, starting at its root: relative paths resolve against it, changing it succeeds only for existing directories, it is always reported as an absolute normalized path inside the jail, and neither side's current directory is disturbed by the other.",
 ["histories"], "all histories of file, directory, rename, delete and current-directory operations interleaved between the jail and the file system below",
 "The tests run a fixed demo through a jail and never compare with direct access.",
 ["src/shim_jail.c"], [("unjail_path", "src/shim_jail.c"), ("jail__set_cur_dir / jail__get_cur_dir", "src/shim_jail.c"), ("wrapped file and directory methods", "src/shim_jail.c")])

prop("E07", "The trace shim is transparent and reports every operation",
 "Stacking the tracing layer on a file system changes no result, no data, no handle state and no error code of any operation, whether it succeeds or fails, alone or stacked with the other layers. While reporting is enabled every file-system, file and directory operation produces a report through the configured output.",
 ["histories", "configurations"], "all operation histories over shim stacks (trace over base, trace over jail, jail over trace, rotate over trace)",
 "Tests run the same demo with a trace shim and ignore the output, so a changed return value, lost byte count or missing forwarding goes unnoticed.",
 ["src/shim_trace.c"], [("trace__* forwarding methods", "src/shim_trace.c")])

prop("E08", "A rotating log retains the newest contiguous data within its bound",
 "At every moment the readable content of a rotating log equals the most recent contiguous bytes of everything appended to it: nothing is reordered, duplicated, altered or lost except the oldest data, which is dropped only in whole chunks and only when the log would otherwise exceed its configured capacity. The total size reported always equals the number of retained bytes and never exceeds the capacity, and the storage below never holds more than the configured number of chunk files, none larger than the chunk size.",
 ["histories"], "all sequences of appends of any sizes (smaller, equal, larger than a chunk or than the whole log, ending exactly on boundaries) over all configurations, wrapping around any number of times",
 "test_rotate writes one stream and prints it; exact chunk and capacity boundaries and multiple generations are not compared.",
 ["src/shim_rotate.c"], [("rotate__file_write", "src/shim_rotate.c"), ("append_new_chunk", "src/shim_rotate.c"), ("get_chunk_pos", "src/shim_rotate.c")],
 [("RotateState", "start/end/current chunk, generation and total size", "src/shim_rotate.c")],
 ["readback through the API and the chunk files in the container directory"])

prop("E09", "Random access in a rotating log is coherent with its content",
 "Reading, seeking, telling the position, end-of-file and size on a rotating log agree with its content as one linear file: a read returns exactly the bytes at the current position and advances by the count returned, reaching the end returns zero, positions beyond the end are refused, and overwriting retained bytes changes exactly those bytes without changing the size or discarding data. Truncating keeps exactly the leading bytes and trimming keeps exactly the newest data, and both leave a log that continues to work.",
 ["histories"], "all histories interleaving appends, reads of any size, seeks with every origin, overwrites across chunk borders, truncation and trimming, including on a full and a wrapped log",
 "The test reads the log forward once; positions near chunk borders, wrapped logs and overwrites are not explored.",
 ["src/shim_rotate.c"], [("rotate__file_read", "src/shim_rotate.c"), ("rotate__file_seek", "src/shim_rotate.c"), ("rotate__file_truncate", "src/shim_rotate.c"), ("rotate trim control", "src/shim_rotate.c")])

prop("E10", "Closing and reopening a rotating log preserves it exactly",
 "After closing a rotating log at any point of its life and opening it again, in the same or a new session, the content and size are identical, reads start at the beginning, and appending continues as if it had never been closed, keeping its stored chunk size and chunk count. Ordinary files and directories reached through the rotating layer behave exactly as without it.",
 ["histories"], "all histories with close/reopen at any point: empty, partly filled, exactly full, wrapped with either generation, after truncation and trimming",
 "Tests reopen the log once in one state.",
 ["src/shim_rotate.c"], [("discover_chunk_sequence", "src/shim_rotate.c"), ("read/write of the geometry record", "src/shim_rotate.c"), ("rotate__open", "src/shim_rotate.c")])

prop("E11", "A rotating log survives interruption and storage errors",
 "If the process stops after any single operation on the storage below, or any one of those operations fails, every call still returns, and opening the log again succeeds and yields a contiguous run of the appended data that contains at least everything that was completely written and synced and still within the log's retained window.",
 ["crash_points", "fault_sequences"], "every crash point between two operations on the underlying storage, and every single or repeated failure (error, short write, no space) of one, for histories of appends, reopen, truncation and trimming",
 "Tests never inject a crash or fault.",
 ["src/shim_rotate.c"], [("append_new_chunk ordering of create/delete", "src/shim_rotate.c"), ("discover_chunk_sequence recovery", "src/shim_rotate.c"), ("error handling in rotate__file_write", "src/shim_rotate.c")])

prop("E12", "Open files behave as byte sequences with a position, per the open mode",
 "For every combination of open flags and every history, an open file behaves as a byte sequence with a position: the documented flag semantics decide creation, refusal, clearing and appending; reads return the bytes at the position and stop at the end; writes store exactly the given bytes at the position (or at the end when appending); seeks from start, current position and end land where documented; position, size and end-of-file agree. Truncation sets the length keeping the leading bytes, and what was written is what any later open reads back.",
 ["histories", "inputs"], "all flag combinations on missing and existing files, and all sequences of read/write/seek/tell/size/truncate/sync/close over several files",
 "The demo tests use three flag combinations and no truncation or end-relative seek, and compare nothing.",
 ["src/stdio_fs.c", "src/evfs.c"], [("stdio__open mode mapping", "src/stdio_fs.c"), ("stdio__file_* methods", "src/stdio_fs.c")])

prop("E13", "A file system set read-only is never modified",
 "While a file system that supports the read-only setting has it on, no operation through it (whatever the open flags, however files were opened, directly or through layers) creates, changes, renames or removes anything, each such attempt is refused with an error, and reading still works; turning the setting off restores normal behaviour. File systems that are read-only by nature refuse every modification.",
 ["histories", "inputs"], "all open-flag combinations and all mutating operations, with the setting toggled at any point of the history",
 "Tests never enable the setting.",
 ["src/stdio_fs.c", "src/fatfs_fs.c", "src/tar_fs.c", "src/romfs_fs.c"], [("cfg_readonly checks", "src/stdio_fs.c"), ("cfg_readonly checks", "src/fatfs_fs.c"), ("unsupported-operation defaults", "src/evfs.c")])

prop("E14", "Names, directories and metadata reflect exactly the operations performed",
 "After any history of creating, deleting and renaming files and directories, the tree seen through stat, existence queries and opens is exactly the one these operations define: each successful operation changes only its target, a failed operation changes nothing, sizes and types are correct, and removing a missing or non-empty target fails. Creating a whole path creates exactly its missing directories and succeeds if they all exist already, and fails without disturbing anything when a component is a file. The descriptive fields a file system declares to fill in are filled in with the truth in every answer, and those it does not declare are empty.",
 ["histories"], "all histories of make-directory, make-path, delete, rename, open-create, stat and existence queries over a small name space",
 "The tests create one or two files and one directory and check no state.",
 ["src/evfs.c", "src/stdio_fs.c"], [("evfs_make_path_range_ex", "src/evfs.c"), ("evfs_existing_file_ex / evfs_existing_dir_ex", "src/evfs.c"), ("stdio__delete/rename/make_dir/stat", "src/stdio_fs.c")])

prop("E15", "Directory iteration reports every entry once; find and glob select exactly",
 "Iterating a directory reports each of its entries exactly once with its correct type and then signals completion, repeatedly; rewinding starts over; '.' and '..' are omitted when so configured. A pattern search reports exactly the entries matching the pattern in iteration order, and a pattern matches a name exactly when the documented wildcard rules ('?', '*', sets, ranges, negation) say so, with no wildcard crossing a separator.",
 ["inputs", "histories"], "all directory contents and all interleavings of read, find and rewind; all pattern/name pairs over a small alphabet plus random longer ones",
 "Tests list a directory once and print it.",
 ["src/evfs.c", "src/util/glob.c", "src/stdio_fs.c"], [("glob_match", "src/util/glob.c"), ("evfs_dir_find", "src/evfs.c"), ("stdio__dir_read / dir_rewind", "src/stdio_fs.c")])

prop("E16", "Copying a file reproduces it exactly or fails cleanly",
 "Copying an open, rewound file of any size to a new path with any buffer produces a destination whose bytes equal the source, never overwrites an existing file, and reports success only if everything was copied; a read, write or memory failure is reported as an error. Formatted and plain string output write exactly the formatted text and return its length.",
 ["inputs", "fault_sequences"], "all file sizes around the buffer sizes, all buffer arguments, all destinations and each single failing read or write, including short ones",
 "No test copies with boundary sizes or failing storage.",
 ["src/evfs.c"], [("evfs_copy_to_file_ex", "src/evfs.c"), ("evfs_file_printf / evfs_file_puts", "src/evfs.c")])

prop("E17", "A mounted tar archive presents exactly the archive's files",
 "For every archive in the supported GNU ustar format (names held in the member headers, directories as the archive lists them), mounted from a file or from memory, opening and reading any member by its absolute or relative path (in any spelling that normalizes to it) yields exactly its bytes and size from any position, members and directories are told apart, and paths not in the archive are refused with an error. An archive that ends early serves the members that are whole and nothing outside it is read. The two mounting methods agree, several members can be open at once without disturbing each other, and nothing can be modified. A mount that meets a read error or runs out of memory is refused or complete.",
 ["inputs", "histories"], "all small archives (any member sizes, long and prefixed names, directories, other member types) and all histories of open/read/seek/stat/current-directory operations",
 "test_tar mounts one fixed archive and prints it.",
 ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/tar_iter.c", "src/tar_iter_rsrc.c"], [("tar index construction", "src/tar_fs.c"), ("tar iterators", "src/tar_iter.c"), ("tar_rsrc", "src/tar_rsrc_fs.c")])

prop("E18", "A mounted romfs image presents exactly the image's tree",
 "For every well-formed image of regular files, directories and hard links (entries of other kinds are only listed), mounted from a file or from memory, opening, reading, seeking, stat and directory iteration report exactly the files, sizes, bytes and directory entries of the image; paths not in it are refused with an error, and invalid images are rejected on mounting. Looking a path up through the index and by walking the directories gives the same answer, several files and directories can be open at once, and nothing can be modified. A mount that meets a read error or runs out of memory is refused or complete; afterwards a call that meets a read error fails or answers right.",
 ["inputs", "histories", "configurations"], "all small image trees and all histories of operations, for both lookup configurations and both mounting methods",
 "test_romfs mounts one fixed image and prints it; only one lookup configuration is built.",
 ["src/romfs_fs.c", "src/romfs_common.c"], [("index_dir_tree / romfs_lookup_abs_path", "src/romfs_common.c"), ("romfs_init header validation", "src/romfs_common.c"), ("romfs__* methods", "src/romfs_fs.c")])

prop("E19", "Failed calls leave no handle, leak or half-done state",
 "Whenever a file system fails to open a file or directory, at any layer and for any reason including memory exhaustion, the caller's handle is null, nothing stays open below and no memory is leaked; when it succeeds, closing releases everything that was opened below. Missing mandatory arguments and unsupported operations are answered with an error code, never with a crash or a change.",
 ["fault_sequences", "inputs"], "every single failing operation below and every single failing allocation, at each layer and stack of layers, over open/close histories, and every call with each pointer argument missing",
 "Tests exercise no failure path.",
 ["src/evfs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c"], [("evfs_vfs_open / evfs_vfs_open_dir", "src/evfs.c"), ("shim open methods", "src/shim_rotate.c"), ("PTR_CHECK guards", "src/evfs.c")])

prop("E20", "Relative paths resolve against the file system's own current directory",
 "On every file system that has a current directory, it starts at a defined directory, changes only by a successful change to an existing directory, is reported in absolute normalized form, and a relative path (with '.', '..' and redundant separators) denotes exactly what the joined and normalized absolute path denotes. A failed change leaves it as it was, and each file system instance has its own.",
 ["histories", "inputs"], "all histories of current-directory changes and path operations over tar, romfs, FAT and jailed file systems",
 "Tests change directory at most once.",
 ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c", "src/fatfs_fs.c"], [("set_cur_dir/get_cur_dir methods", "src/tar_fs.c"), ("set_cur_dir/get_cur_dir methods", "src/romfs_fs.c"), ("evfs_vfs_path_absolute", "src/evfs_path.c")])

prop("E21", "A FAT volume behaves as the reference file system and keeps its data",
 "Every history of operations on a FAT volume held in an image file gives the results of the reference file-system semantics on that volume and no other (open modes, reads, writes, appends, seeks, truncation, directories, renames, deletes, current directory, read-only setting), names being compared without regard to case and nothing being lost or invented when the volume is full; unmounting and mounting the image again shows exactly the same tree and contents. A drive with no image refuses every path. When the storage of the image fails, a call that reports success has done its work and data read is never wrong.",
 ["histories", "fault_sequences"], "all histories over a small name space on small volumes on either drive, with remounts at any point, directly and through jails and traces, full volumes, and failing operations on the image",
 "The FAT driver is compiled but no test runs it.",
 ["src/fatfs_fs.c", "src/fatfs_image.c"], [("fatfs__* adapters", "src/fatfs_fs.c"), ("image block access", "src/fatfs_image.c")])

prop("E22", "The lookup table behaves as a finite map through growth and removal",
 "After any history of insertions, replacements and removals, the hash table used for file-system indexes finds every present key with its latest value and no absent key, counts and iterates exactly the present entries, destroys each displaced entry exactly once, and keeps all of this across growth, collisions and removals. An insertion that cannot be satisfied is refused and leaves the contents unchanged. The storage given or allowed is never exceeded, and capacity reported as reserved is there.",
 ["histories"], "all histories over colliding and distinct keys, with fixed external storage, storage limits and growth at any point",
 "No test uses the table directly; the file-system tests insert a handful of keys and never remove.",
 ["src/util/dhash.c"], [("dh__insert_ex", "src/util/dhash.c"), ("dh__find_bucket", "src/util/dhash.c"), ("dh__grow", "src/util/dhash.c"), ("dh_remove", "src/util/dhash.c")])

prop("E23", "Concurrent callers get results as if their operations ran one at a time",
 "In the threaded configurations, any number of threads may operate on the same mounted file systems and layers (each on its own file handles, current directories not being changed meanwhile) and every call returns, with the result and effect it would have had at some instant of a one-at-a-time execution. In particular no path of one thread is ever used for another, and a call that fails leaves nothing locked.",
 ["schedules"], "all interleavings of a few threads performing path-based operations on jails, rotating logs, tar and romfs mounts, including failing calls, and registrations",
 "The threaded builds run the same single-threaded demos.",
 ["src/shim_jail.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/evfs.c", "src/evfs_pthread.c"], [("LOCK/UNLOCK around shared path buffers", "src/shim_jail.c"), ("MAKE_ABS and shared buffers", "src/tar_fs.c"), ("registry lock", "src/evfs.c")])

prop("E24", "Bounded string building never leaves its buffer and is exact",
 "For every buffer, fill level and text, the bounded string operations (copying, appending text, sub-ranges, characters, decimal numbers and formatted text, padding, terminating, shortening, and the size-limited C string copies) touch no byte outside the buffer given and none before the current end of the string. When the result with its terminator fits it is stored exactly, terminated, and its length returned; otherwise a negative result tells that it did not fit and what was there before remains. Tokenizing, trimming and comparing a string see exactly its bytes, never past its given length, and tokens are exactly the longest runs without delimiters.",
 ["inputs", "histories"], "all histories of appends over all small buffers, every length around the fit, every token of every short string with every length limit",
 "The utilities have no tests of their own and the library calls them with room to spare.",
 ["src/util/range_strings.c", "src/util/bsd_string.c"], [("range_cat_* family", "src/util/range_strings.c"), ("range_token_limit", "src/util/range_strings.c"), ("strlcpy, strxcpy, strlcat", "src/util/bsd_string.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
