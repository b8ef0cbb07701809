CHECKS = {}
for _m, _ids in {"c_registry": ["E01"], "c_path": ["E02", "E03", "E04"], "c_rotate": ["E08", "E09", "E10", "E11"], "c_arch": ["E17", "E18"], "c_res": ["E19"], "c_dhash": ["E22"], "c_conc": ["E23"], "c_fat": ["E21"], "c_str": ["E24"], "c_fs": ["E05", "E06", "E07", "E12", "E13", "E14", "E15", "E16", "E20"]}.items():
    for _i in _ids: CHECKS[_i] = _m
TR = "TLA+ spec; TLC exhaustive on small constants; "
NOTES = {
 "E01": (TR + "one real-code replay per explored transition plus trace acceptance of random histories",
         "All registry states over 3 bases and 2 layers are model checked and every transition is replayed on the real code; random histories beyond. Trusts the in-memory base and the harness."),
 "E02": (TR + "every enumerated and random path run through the real functions, events accepted by the spec's canonical form",
         "All paths up to 6 (quick) / 8 (thorough) characters over separators, period and a letter, with and without drives, plus random long paths; component counts around 32 and 64."),
 "E03": (TR + "real calls with guarded buffers at every output size around the fit, accepted by the spec's exact result-or-error rule",
         "Same enumerated paths with sampled and boundary output sizes; redzones and ASan watch for writes outside the range."),
 "E04": (TR + "every enumerated and random path split and rejoined by the real functions, accepted by the spec's definitions",
         "All paths up to 6/8 characters, every byte value in several positions, random longer ones."),
}
FSN = "specs/Fs.tla: "
REPLAY = TR + "explored transitions replayed on the real code (in-memory base and stdio), random histories accepted by the trace spec"
NOTES.update({
 "E05": (REPLAY + "; every path handed to the base file system is logged and checked against the jail root",
         "Small hostile path sets exhaustively to depth 3 (quick) / 4; random histories over nested and traced jails, long components and roots around the 256-byte limit."),
 "E06": (REPLAY + "; paired runs (jail vs direct on the corresponding path, with storage faults) checked for equal events",
         "Exhaustive to depth 3/4 over small path sets; random histories on jails over memory, stdio, traces and other jails."),
 "E07": (TR + "paired runs with and without the layer under injected storage faults, every pair of events must agree; report counts checked by the trace spec",
         "Random histories over direct, jailed, rotated and doubly traced stacks; wording of reports is not constrained."),
 "E12": (REPLAY, "All call sequences up to 5/6 over one and two handles, 12 flag sets and small contents; random histories up to 6000-byte writes on memory, stdio, jails and traces."),
 "E13": (REPLAY, "Exhaustive to depth 4/5 for memory, stdio and jail views with the setting toggled anywhere; random histories; tar and romfs mounts refuse everything."),
 "E14": (REPLAY, "Exhaustive to depth 4/5 over seven paths; random histories over all stacks with full dumps of the tree below."),
 "E15": (REPLAY + "; pattern matching enumerated against the spec's Match",
         "Exhaustive to depth 5/6; enumerated patterns up to 3/4 tokens against all short texts, random longer ones, every byte value."),
 "E16": (REPLAY + "; copies and text output under storage and memory failure accepted by Trace_CopyFault",
         "Sizes 0..6000, buffer sizes 1..1000 or none, failures at every early operation of reader, writer and allocator."),
 "E20": (REPLAY, "Exhaustive to depth 4/5 over ten spellings; random histories on several instances, jails, stdio and long names."),
})
ROT = TR + "explored transitions of the log model replayed on the real code (in-memory, buffered and stdio storage), random histories accepted by Trace_Rotate, which also checks the stored chunk files"
NOTES.update({
 "E08": (ROT, "RotateLog exhaustive over appends at chunk and capacity borders (2 to 4 chunks); RotateChunks relates the chunk files to the log; random geometry, layers above and below."),
 "E09": (ROT, "Exhaustive depth 6/8 over reads, writes, seeks, truncation and trimming at borders; random histories."),
 "E10": (ROT + "; containers of every rotation phase crafted by hand, paired runs for ordinary files", "Exhaustive depth 7/9 over reopening with 7 flag sets; several logs, sessions, layers with other settings, names around the longest allowed."),
 "E11": (TR + "the process is stopped, or a storage operation fails, at any operation of a call; the trace spec allows exactly the states the model says an interruption may leave",
         "RotateChunks stops and fails between any two storage operations (2 to 4 chunks); real-code crashes at operations 1..21 of appends, truncation, trim, open, repeated; storage with and without buffering."),
})
NOTES.update({
 "E17": (TR + "archives built from generated trees and mounted from memory, from an in-memory file and from a real file; every call accepted by the trace spec against the tree the archive was built from",
         "Small model exhaustive to depth 4/5; random archives of up to 60 members (full-length and prefixed names, duplicates, other member kinds, every block padding); failing and short reads below."),
 "E18": (TR + "images built from generated trees and mounted from memory and from files, with and without the path index; every call accepted by the trace spec against the tree the image was built from",
         "Small model exhaustive to depth 4/5; random images (links, empty directories, longest names, other kinds of entries listed only), damaged superblocks; failing and short reads below."),
})
NOTES.update({
 "E19": (TR + "every explored open/close history with refusals replayed on the real code; single failing operations and allocations swept under single calls, accepted by Trace_Resources",
         "Accounting of base files, directories and library allocations around every call on twenty stacks (jail, trace, log, tar, romfs, stdio); every call with each pointer missing; file systems lacking optional methods."),
})
NOTES.update({
 "E22": (TR + "explored insert/remove histories replayed on the real table with keys chosen to meet in the modelled buckets; random histories, callbacks and storage accepted by Trace_DHash",
         "The table algorithm exhaustively to depth 5/6 at the capacity border, fixed and growing (11 and 29 buckets); random histories over five hash functions, value sizes 0..33, storage limits, refused growth and replacement; up to 150000 removals on one table and 20000 entries."),
})
NOTES.update({
 "E23": (TR + "thread orders explored in specs/Conc.tla and hand-overs at every basic block drive the real library (threads enabled) one thread at a time; each recorded history must have a one-at-a-time explanation in Fs/RotateLog/Registry (Trace_Conc*)",
         "Two or three threads of one to four calls on jails, traces, archives, rotating logs, real files and registrations, with refused paths and with storage or memory failures; one hand-over anywhere plus sampled multiple ones. Memory-model effects inside a basic block are not explored."),
})
NOTES["E21"] = (TR + "explored histories of files, names and remounts replayed on the real adapter and the vendored FatFs; random histories on either drive, two images, jails and traces, full volumes, failing image storage, accepted by the trace spec and checked against the volume as FatFs itself lists it",
         "Exhaustive to depth 4/5; images from 100 bytes to 600 kB; every open mode; remounts anywhere. ASCII names only; one writer per open file and no removal of open files, as FatFs requires.")
NOTES["E24"] = (TR + "every explored filling of a small buffer replayed on the real functions in blocks of exactly that size; random histories and all short strings accepted by the trace spec",
         "Buffers of 0..5 (quick) / 8 bytes filled by up to 4/5 operations, random ones to 256 bytes; all strings up to 5/7 characters tokenized and trimmed at every limit. Fixed point formatting is not covered.")
NA = {}
