"""What the evidence says about each check besides its measured counts."""

REAL = [
    "specfile (all of it, imported from /repo's working tree)",
    "librpm and its Python bindings",
    "the file system calls themselves (tmpfs), behind the simulator's gate",
]
STUB = [
    "fault decisions, external processes acting in the source directory",
    "temporary file names",
    "object identities the package reads (simulated allocator), garbage collection instants",
    "hash order (PYTHONHASHSEED part of the seed)",
]
A = [
    "interruptions are delivered at calls that can block (file operations, RPM calls), not "
    "between arbitrary bytecodes and not during clean-up calls",
    "librpm itself behaves the same in every process",
]

ABOUT = {
    "C01": {
        "rule": "A run is a seeded session of loads, edits, saves, reloads, autosaving blocks, "
        "copies and rewrites by another program, on texts with unusual bytes, with I/O faults "
        "and interruptions at any call on the file.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C03": {
        "rule": "A run is a seeded interleaving of queries, edits, reconfigurations, copies, "
        "collections and failing or interrupted parses over several specs; every answer is "
        "compared with RPM's in a fresh process.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C04": {
        "rule": "A run is a seeded session of public operations (about 45 kinds) on one or two "
        "specs with I/O errors, failing allocations, interruptions and unparseable documents; "
        "every outcome is compared with that of the same operation on a fresh instance in a "
        "fresh process, and failed operations are repeated without the fault.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C17": {
        "rule": "A run is a seeded session over up to six instances (loaded from the same files, "
        "deep-copied at any moment, also while views are open, reconfigured, discarded and "
        "collected), with faults; every operation is compared with the same one on a fresh "
        "instance in a fresh process, and every other instance and file must not have changed.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C05": {
        "rule": "A run is a seeded session of public operations under odd locale environments, "
        "on noisy and broken specs, with I/O errors, interruptions, failing allocations and a "
        "nearly full descriptor table (librpm included); descriptors, environment, directory, "
        "umask, children, temporary files and everything that arrives on standard error are "
        "compared around every operation.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C06": {
        "rule": "A run is a seeded session of opening, editing through, closing, leaving by "
        "exception, discarding and collecting nested views of up to three specs, with faults "
        "while views are opened or saved; every open view and the document are compared with "
        "one plain list of lines after every step.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C02": {
        "rule": "A run is a seeded session of operations that parse specs with missing and "
        "present sources, with file-system faults, interruptions and another process acting "
        "in the source directory between any two calls.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C07": {
        "rule": "A run is a seeded session of edits through every view over generated documents "
        "with odd layout, with faults, saves, reloads and a second spec in between; after every "
        "edit the text is compared line by line with a model of items and lines, and a fresh view "
        "with the state the edit asked for.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
    "C12": {
        "rule": "A run is a seeded session of new instances, queries, renaming edits and forced "
        "parses while any subset of the sources, patches, included and loaded files is present, "
        "files appear and vanish between operations and between two calls of one, and stand-ins "
        "fail to be created; answers are compared with RPM's in a fresh process with every file "
        "present.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A + ["no macro reads the contents of files that are only sources"],
    },
    "C11": {
        "rule": 'A run is a seeded session of version, release and source updates on documents that spread them over macros and conditions, with faults and interruptions at any call, after which the update is repeated; RPM in a fresh process evaluates every resulting text, and a twin that was never interrupted gives the text to converge to.',
        "real": REAL,
        "stub": STUB + [],
        "assumptions": A,
    },
    "C10": {
        "rule": 'A run is a seeded session of author detections and changelog additions in machines where each place to look is present, empty, absent or failing, git appears or vanishes between two calls, and interruptions arrive while other programs run; answers are compared with the documented precedence.',
        "real": REAL,
        "stub": STUB + ['child processes (git), the account database, PATH'],
        "assumptions": A,
    },
    "C09": {
        "rule": 'A run is a seeded session of changelog additions under a simulated clock, time zone and locale, with clock jumps between any two readings and between additions, on documents with none, one or several changelog sections in either format; every resulting text is explained by one single reading or it is a violation, and RPM reads it back.',
        "real": REAL,
        "stub": STUB + ['the clock, time zone and locale (every reading comes from the plan of the run)'],
        "assumptions": A,
    },
    "C08": {
        "rule": "A run is a seeded session of list operations on the sources and patches of "
        "generated specs (tags with every numbering style, conditions, list sections), with "
        "faults, saves, reloads, version changes and a second spec in between; after every "
        "operation the locations are compared with a plain list and the numbers and file names "
        "with what RPM, in a fresh process, assigns to the resulting text.",
        "real": REAL,
        "stub": STUB,
        "assumptions": A,
    },
}
