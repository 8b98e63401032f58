"""What each property's check runs: monitor program, build variants, case counts, and what must have been observed."""
SAN = "AddressSanitizer/UBSan execution with "
KINDS = ["animation", "archive", "binary model script", "bsp", "compiled script", "cutscene library", "deep nesting", "disk image", "font", "hierarchy", "material", "mesh", "model",
         "model script", "modelmesh", "morphmesh", "mrm", "object", "sample", "sample save-game", "save-game", "save-game metadata and state", "script execution", "softskin",
         "texture", "world"]
CLASSES = ["C_GILVALUES", "C_NPC", "C_MISSION", "C_ITEM", "C_FOCUS", "C_INFO", "C_ITEMREACT", "C_SPELL", "C_SVM", "C_MENU", "C_MENU_ITEM", "CCAMSYS", "C_MUSICSYS_CFG",
           "C_MUSICTHEME", "C_MUSICJINGLE", "C_PARTICLEFX", "CFX_BASE", "C_PARTICLEFXEMITKEY", "C_FIGHTAI", "C_SFX", "C_SNDSYS_CFG"]
PROPS = {
    "C01": dict(harness="h_stream", variants=["asan"], quick=120000, thorough=4000000,
                technique=SAN + "an online byte-string model monitoring all input backends in lockstep",
                note="random operation histories, every result compared with the model; histories not generated are not covered",
                rule="one case = random content (0..~3000 bytes, line-heavy or binary) opened through all input backends, 30..150 random "
                     "read/seek/tell/eof/typed/line operations applied to all of them and to a byte-string model, every result compared; "
                     "non-trivial = distinct (operation, cursor relation to the end before/after, content size class) transition",
                require=["read ops", "seek ops", "past-end reads", "line reads", "out-of-range seeks"]),
    "C02": dict(harness="h_stream", variants=["asan"], quick=120000, thorough=4000000,
                technique=SAN + "an online byte-string model monitoring all output backends in lockstep",
                note="random write/seek histories, cursors and final bytes compared with the model, values read back",
                rule="one case = 20..120 random typed writes and seeks applied to all output backends and a byte-string model, final bytes and "
                     "cursors compared and values read back; non-trivial = distinct (operation, overwrite/append, fits/too small) transition",
                require=["write ops", "overwrites", "fixed buffer exhausted", "values read back"]),
    "C03": dict(harness="h_vfs", variants=["asan"], quick=40000, thorough=600000,
                technique=SAN + "an online tree model monitoring every file system operation",
                note="random operation histories over a colliding name pool; after each operation the whole tree is compared with the model",
                rule="one case = 20..80 random mkdir/create/remove/resolve/find/copy operations on a Vfs and a plain case-insensitive tree, whole tree "
                     "compared after each; non-trivial = distinct (operation, outcome, tree size) transition",
                require=["creates", "creates replacing", "removals", "removals of nothing", "lookups found", "lookups of nothing",
                         "lookups through a file", "finds", "mkdir refused", "entries compared", "node assignments"]),
    "C04": dict(harness="h_vfs", variants=["asan"], quick=40000, thorough=600000,
                technique=SAN + "a merge model monitoring every mount, host trees and independently encoded disk images as sources",
                note="random mount sequences with few distinct timestamps, all four policies; whole tree compared after each mount",
                rule="one case = 2..6 mounts (node trees, host directories with set times, independently encoded images) under random policies; "
                     "non-trivial = distinct (policy, decision, kinds of both sides, tie)",
                require=["trees mounted", "host directories mounted", "disk images mounted", "mounts refused", "directories merged",
                         "conflicts NONE kept", "conflicts ALL taken", "conflicts NEWER taken", "conflicts NEWER kept",
                         "conflicts OLDER taken", "conflicts OLDER kept"]),
    "C05": dict(harness="h_vfs", variants=["asan"], quick=60000, thorough=1000000,
                technique=SAN + "an independent disk-image reader checking every saved image, and mount-back comparison",
                note="random trees and times (1980..2107), five time zones, three output backends",
                rule="one case = random tree saved, decoded by an independent reader, mounted back and saved again; non-trivial = distinct (nodes, files, empties)",
                require=["images saved", "images decoded independently", "file contents compared", "trees with empty directories"]),
    "C06": dict(harness="h_archive", variants=["asan"], quick=30000, thorough=300000,
                technique=SAN + "a reference value list monitoring what the three archive encodings read back, library- and reference-written, under a moving clock",
                note="random values incl. boundaries and marker-like strings; both the library's writer and an independent encoder feed the readers",
                rule="one case = random values and objects written by the library and by an independent encoder, read back and compared one by one; "
                     "non-trivial = distinct (encoding, prefix of value kinds)",
                require=["archives dissected", "raw blocks read in part", "objects with many entries", "long names", "values compared", "values string", "values mat3x3", "values raw", "values bbox", "archives ascii", "archives binary", "archives binsafe",
                         "library-written", "reference-written"]),
    "C07": dict(harness="h_archive", variants=["asan"], quick=200000, thorough=3000000,
                technique=SAN + "structure monitors: reference object trees with random skips, and canonical object graphs compared across writing and reading",
                note="trees to depth 5 with partial reads and skips; graphs of nine object classes with sharing, cycles, nulls and unknown classes",
                rule="one case = a random object tree read with random skips, or a random object graph written and read; non-trivial = distinct canonical graph or item sequence",
                require=["object headers compared", "objects skipped unread", "objects skipped in part", "object graphs compared", "graphs with sharing",
                         "unknown objects", "null objects"]),
    "C08": dict(harness="h_archive", variants=["asan"], quick=400000, thorough=5000000,
                technique=SAN + "a type-table monitor: every stored type read as every other, boundary probes and damaged headers",
                note="all pairs of stored and requested type in the two typed encodings; damaged headers; boundary probes must not move the cursor",
                rule="one case = one stored item read as another type, a damaged header, or a tree probed at every item; non-trivial = distinct (encoding, stored, requested) or header damage",
                require=["mismatches refused", "compatible reads", "boundaries refused", "headers accepted", "headers refused"]),
    "C09": dict(harness="h_objects", variants=["asan"], quick=60000, thorough=500000,
                technique=SAN + "a per-class field table monitoring what every archivable class loads, saves and re-saves, against an independent encoder",
                note="every archivable class x game x encoding x save-game x packed form, random values in every field",
                rule="one case = one object graph rooted in one class, filled at random, encoded independently and loaded, saved by the library and compared byte "
                     "for byte with the independent encoding, loaded and saved again; non-trivial = distinct stored content",
                require=["values compared", "encodings compared", "objects round-tripped", "loaded by class", "save-games", "unpacked", "encoding ascii", "encoding binary", "encoding binsafe"]),
    "C15": dict(harness="h_mds", variants=["asan"], quick=20000, thorough=400000,
                technique=SAN + "two independent writers (compiled chunks and source text with tolerated irregularities) monitoring what a script loads to",
                note="random scripts with every statement and event kind, written as chunks (with unknown chunks), as regular text and as irregular text",
                rule="one case = a random script, written three ways, loaded and compared field by field; non-trivial = distinct script",
                require=["values compared", "binary scripts", "texts", "irregular texts", "unterminated strings", "comments", "arguments omitted", "ignored event blocks",
                         "blocks not opened", "blocks not closed", "unknown statements", "scripts not closed", "unknown chunks", "samples loaded"]),
    "C17": dict(harness="h_assets", variants=["asan"], quick=30000, thorough=600000,
                technique=SAN + "independent encoders and a name-table model monitoring fonts, materials and cutscene libraries",
                note="random fields; all encodings and both games; lookups of every stored name and of near misses (prefix, case, one bit)",
                rule="one case = a font, a few materials or a library, encoded independently in random order, loaded, compared, saved, compared and loaded again; "
                     "non-trivial = distinct content",
                require=["values compared", "fonts", "materials", "materials ascii", "materials binary", "materials binsafe", "materials with surplus", "libraries", "blocks found", "unknown names"]),
    "C18": dict(harness="h_script", variants=["asan"], quick=6000, thorough=200000,
                technique=SAN + "an independent .DAT encoder, a symbol-table model of every lookup, and the documented access rules as an oracle for every kind of access",
                note="random tables of all symbol types, flags, counts up to 4095, unnamed and generated symbols, unterminated constants; every accessor with right and "
                     "wrong types, indices and contexts (none, foreign, unbound, bound, transient)",
                rule="one case = a random symbol table and code, encoded, loaded, compared symbol by symbol, every lookup and accessor exercised; non-trivial = distinct table shape",
                require=["opaque elements compared", "symbols grown", "members before their class", "values compared", "scripts compared", "names found", "unknown names", "addresses found", "functions with locals", "locals at the end of the table",
                         "classes compared", "instances enumerated", "instructions decoded", "access: type error", "access: index error", "access: no context",
                         "access: unbound member", "access: wrong context", "transient accesses", "bindings", "bindings refused", "bound elements",
                         "writes checked for isolation", "constants with surplus line ends", "constants with a parent", "loaded into a used script"]),
    "C16": dict(harness="h_tex", variants=["asan"], quick=6000, thorough=60000,
                technique=SAN + "an independent texture encoder, pixel decoder (incl. DXT) and DDS reader monitoring loading, decoding, building, saving and exporting",
                note="all formats, odd and non-square sizes, up to nine levels; DXT compression is bounded by the colour spread of each block",
                rule="one case = a random stored texture loaded, decoded, saved and exported, or a texture built from images of random formats; "
                     "non-trivial = distinct (formats, size, levels)",
                require=["levels compared", "pixels compared", "dds files compared", "truncated refused", "levels built unchanged", "levels converted",
                         "unsupported conversions refused", "format DXT1", "format DXT5", "format P8", "format R5G6B5", "built DXT5", "built A8R8G8B8"]),
    "C10": dict(harness="h_world", variants=["asan"], quick=6000, thorough=150000,
                technique=SAN + "an independent world encoder monitoring loaded, saved and re-loaded object trees, way networks and save-game state",
                note="random worlds of all object classes, both games, three encodings, save-game and plain; unknown sections, unknown objects and surplus content",
                rule="one case = a random world encoded independently (sections in any order, with foreign content in 40% of the cases), loaded three ways and compared, "
                     "saved, compared with the format, loaded and saved again; non-trivial = distinct world",
                require=["values compared", "worlds loaded", "worlds saved", "versions detected", "unknown sections", "foreign objects in the tree", "sections with surplus content",
                         "encodings compared", "way networks with edges", "save-game worlds", "worlds with wide indices"]),
    "C11": dict(harness="h_geom", variants=["asan"], quick=60000, thorough=300000,
                technique=SAN + "an independent encoder and triangulator monitoring decoded, triangulated, saved and re-loaded world meshes and BSP trees",
                note="random meshes, flags, light maps (shared and separate), trees, sectors and leaf lists, both games, wide and narrow indices",
                rule="one case = a random world mesh, BSP tree or set of oriented boxes, encoded independently, loaded, compared field by field, triangulated, saved, "
                     "compared chunk by chunk and loaded again; non-trivial = distinct polygon kinds and tree shapes",
                require=["values compared", "loaded mesh", "loaded bsp", "saved mesh", "saved bsp", "triangles compared", "oriented boxes enclosed", "chunks compared"]),
    "C12": dict(harness="h_world", variants=["asan"], quick=2500, thorough=50000,
                technique=SAN + "file-level monitors: independently encoded save-games, written files compared with the format, directory audits around every operation",
                note="save, load, load again, second world, copy over an old save-game, other spellings of the path, incomplete save-games, histories over several slots against a model; only below a scratch directory",
                rule="one case = one random save-game written, compared file by file with the format, loaded, extended, copied and loaded again, the directory around it "
                     "audited after each step; non-trivial = distinct content",
                require=["values compared", "files compared with the format", "directories audited", "save-game worlds compared", "second worlds saved", "copies saved",
                         "reference save-games loaded", "incomplete save-games refused", "thumbnails", "loaded twice", "sample save-games", "slot histories", "slot saves",
                         "slot loads", "slots audited"]),
    "C13": dict(harness="h_geom", variants=["asan"], quick=30000, thorough=150000,
                technique=SAN + "an independent encoder monitoring decoded, saved and re-loaded model geometry",
                note="multi-resolution, soft-skin and model meshes, hierarchies and whole models; sections in any order with gaps as the offsets allow",
                rule="one case = random model data encoded independently, loaded, compared field by field, saved, compared chunk by chunk with the format and loaded "
                     "again; non-trivial = distinct content",
                require=["values compared", "loaded mrm", "loaded softskin", "loaded modelmesh", "loaded hierarchy", "loaded model", "saved mrm", "saved softskin",
                         "saved modelmesh", "saved hierarchy", "saved model", "chunks compared"]),
    "C14": dict(harness="h_geom", variants=["asan"], quick=60000, thorough=200000,
                technique=SAN + "an independent encoder and sample decoder monitoring loaded animations and morph meshes",
                note="random headers, events with empty and white-space strings, boundary sample values",
                rule="one case = a random animation or morph mesh encoded independently, loaded and compared, every sample recomputed in double precision; "
                     "non-trivial = distinct content",
                require=["values compared", "loaded animation", "loaded morphmesh", "samples beyond the sphere", "samples inside the sphere"]),
    "C24": dict(harness="h_geom", variants=["asan"], quick=40000, thorough=200000,
                technique=SAN + "an independent chunk writer adding unknown chunks and surplus bytes, and an independent chunk walker over everything saved",
                note="all chunked formats; the chunk protocol itself with handlers that read too little, too much or move the end of their chunk; unknown chunks between known ones, surplus bytes inside known ones",
                rule="one case = one random file of a chunked format with unknown chunks and surplus bytes, loaded and compared with the data without them, and the "
                     "chunk lengths of the saved file walked; non-trivial = distinct content",
                require=["values compared", "files with unknown chunks", "files with surplus bytes", "declared lengths checked", "loaded mesh", "loaded bsp", "loaded mrm",
                         "loaded softskin", "loaded modelmesh", "loaded hierarchy", "loaded model", "loaded animation", "loaded morphmesh",
                         "chunk sequences", "chunk overread", "chunk read in part", "chunk end moved by its handler"]),
    "C19": dict(harness="h_vm", variants=["asan"], quick=3000, thorough=60000,
                technique=SAN + "a plain interpreter of the instruction set as oracle: a hook in the machine compares every executed instruction online, and results, all variables, "
                     "instance members, native calls and both stacks are compared after every call",
                note="typed random programs over every instruction except MOVSS, which is not implemented; nested, recursive and overridden functions, access traps, up to 300 repeated calls",
                rule="one case = one random program of 15 to 25 functions, encoded independently, executed by the machine and by a plain interpreter for 4 to 300 calls; "
                     "non-trivial = distinct byte code",
                require=["results compared", "instructions compared", "values compared", "native calls compared", "instances initialised", "deep stacks", "repeated calls"]
                        + ["op %d" % o for o in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 32, 33, 45, 60, 61, 62, 64, 65, 67, 70, 72, 73, 74, 75, 76, 80, 245)]),
    "C20": dict(harness="h_vmsig", variants=["asan"], quick=8000, thorough=80000,
                technique=SAN + "native functions of some hundred signatures which record what they receive, checked against what the script passes and against the declared types; "
                     "and the plain interpreter of C19 with native callbacks, overrides and instance initialisers",
                note="all parameter and return types up to three parameters, matching and non-matching declarations, wrong instances, wrong calls from native code",
                rule="one case = one random declaration registered with a matching or non-matching native function and called with random arguments, or one random program with "
                     "nested native and script calls; non-trivial = distinct declarations, arguments and programs",
                require=["results compared", "signatures accepted", "signatures refused", "arguments compared", "returned values compared", "calls refused", "wrong instances refused",
                         "instances initialised", "native calls compared"]),
    "C21": dict(harness="h_vm", variants=["asan"], quick=3000, thorough=30000,
                technique=SAN + "fault injection into random programs (23 kinds of error, noise as byte code, throwing native functions) with every handler strategy; the plain interpreter "
                     "as oracle for the failing and for all later calls, stacks and context checked after every failure",
                note="errors planted in random places of random programs and dedicated failing functions; behaviour nobody specifies (a function consuming its caller's values) is only "
                     "checked for memory safety and for the machine being usable afterwards",
                rule="one case = one random failing program executed for 6 to 26 calls (some 40 times in a row) with one of five handlers, failing and succeeding calls compared with the "
                     "plain interpreter; non-trivial = distinct byte code",
                require=["results compared", "instructions compared", "stack limits reached", "instances initialised"]
                        + ["errors compared: " + n for n in ("no handler", "fail", "continue", "return", "lenient")]
                        + ["planted: " + n for n in ("unregistered external", "missing symbol", "call without a function", "throwing native function", "jump outside", "missing symbol for element",
                                                     "division by zero", "index out of bounds", "assignment to a constant", "wrong type", "assignment to a value", "not implemented",
                                                     "context of a wrong class", "self division by zero")]
                        + ["provoked: " + n for n in ("call of no external", "context which is no instance", "end of the code", "endless recursion", "instruction not implemented", "noise",
                                                      "reference taken from an empty stack", "stack filled up", "stack filled up with strings", "value taken from an empty stack")]),
    "C22": dict(harness="h_load", variants=["asan"], quick=3000, thorough=200000,
                technique=SAN + "structure-aware damage of valid files of every format as workload: the sanitizers are the oracle, every refusal must be an exception",
                note="26 kinds of file including the repository's samples; truncation, bit, byte, word and counter damage, splicing, text tokens, nesting; damaged scripts are also executed",
                rule="one case = one random valid file of one format (its loader, and everything which can be done with what was loaded) and 6 to 40 damaged versions of it (cut off, fields "
                     "set to boundary values, blocks moved, spliced with another file); non-trivial = distinct (format, error) and (format, kind of damage accepted)",
                require=["accepted", "refused", "log messages"] + ["intact " + k for k in KINDS] + ["refused " + k for k in KINDS]
                        + ["damaged: " + n for n in ("truncated", "bit flipped", "dword set", "dword shifted", "spliced", "piece repeated", "block removed", "nested", "number replaced",
                                                     "line duplicated", "type replaced")]),
    "C23": dict(harness="h_load", variants=["plain"], quick=10000, thorough=400000,
                technique="work-counting input stream and counting allocator around every loader, with structure-aware damage of valid files of every format as workload",
                note="budgets are generous (quadratic re-reading of repeated chunks is possible): 20000 + 2048 operations per byte, one allocation 64 MiB + 256 bytes per byte, "
                     "peak 256 MiB + 1024 bytes per byte; a watchdog on processor time catches loops which do not touch the stream",
                rule="as C22; every operation on the input stream is counted, and the largest request and the peak of memory are measured for every load; "
                     "non-trivial = distinct (format, amount of work, kind of damage)",
                require=["accepted", "refused", "stream operations"] + ["intact " + k for k in KINDS] + ["refused " + k for k in KINDS]),
    "C25": dict(harness="h_load", variants=["plain"], quick=3000, thorough=200000,
                technique="differential execution: every file is loaded again with heap and stack memory filled with other values, through every kind of stream, enclosed in a larger one and "
                     "after other files; all values and the cursor are compared",
                note="everything reachable from the loaded object is described, saved again and converted for the comparison; formats which extend to the end of the stream are not "
                     "followed by other bytes",
                rule="one case = one random valid file of one format loaded 8 to 14 times; non-trivial = distinct contents",
                require=["values compared"] + ["compared: " + n for n in ("other memory contents", "owned vector", "mapped file", "FILE", "ifstream", "stringstream", "offset", "enclosed",
                                                                         "enclosed in a file", "after others")]),
    "C30": dict(harness="h_load", variants=["asan"], quick=7600, thorough=100000,
                technique=SAN + "differential execution: every file is loaded into an object which already holds something else, or is left over from a load which failed, and compared with a fresh one",
                note="every format whose loader works on an existing object; preceded by the same file, other files of the format, cut off and damaged ones",
                rule="one case = one random valid file loaded into a fresh object and five used ones; non-trivial = distinct (contents, outcomes of the loads before)",
                require=["loaded after complete loads", "loaded after failed loads", "values compared"] + ["reused: " + k for k in (
                    "animation", "binary model script", "bsp", "compiled script", "cutscene library", "font", "hierarchy", "material", "mesh", "model", "model script", "modelmesh", "morphmesh",
                    "mrm", "save-game", "save-game metadata and state", "softskin", "texture", "world")]),
    "C29": dict(harness="h_load", variants=["asan"], quick=2000, thorough=60000,
                technique=SAN + "a resource ledger: live heap bytes, open file descriptors and mapped files are compared before and after every load, successful or not",
                note="every format, through mapped files, FILE, memory and owned vectors; intact, cut off and damaged files",
                rule="one case = one random file of one format loaded, used, saved and dropped, and 2 to 8 cut off or damaged versions of it; each is repeated and must not hold more than "
                     "the repetition before; non-trivial = distinct (format, damage, error, stream)",
                require=["released after success", "released after failure", "released: paths", "paths refused"] + ["released: " + k for k in KINDS]),
    "C26": dict(harness="h_load", variants=["tsan"], quick=1600, thorough=60000,
                technique="ThreadSanitizer execution of 3 to 7 threads loading, saving, converting and running independent objects at the same time; every result and every log message "
                     "compared with a sequential run",
                note="the monitor's own bookkeeping uses relaxed operations only, so it orders nothing; interleavings are those of the scheduler",
                rule="one case = 4 to 8 random files of any formats (and script programs), 3 to 7 threads doing 6 of them each; non-trivial = distinct (combination of formats, threads)",
                require=["parallel operations", "values compared", "cases with overlapping operations", "log messages expected", "parallel messages of the default sink"]
                        + ["used " + k for k in KINDS if k not in ("deep nesting", "sample save-game")]),
    "C27": dict(harness="h_load", variants=["asan"], quick=40000, thorough=200000,
                technique=SAN + "recording sinks compared with a model of level, order and text after every message; loaders run with every level, their results and messages compared",
                note="hostile texts (format directives, control characters, up to 100000 characters), sinks which log themselves, replaced sinks, the default sink on a captured stream",
                rule="one case = 10 to 70 random sink changes and messages, or one random (often damaged) file loaded without a sink and at all five levels; "
                     "non-trivial = distinct messages and (origin, level, format)",
                require=["delivered", "dropped by level", "dropped without a sink", "long messages", "nested messages", "default sink messages", "sinks installed", "loads compared"]
                        + ["level %d messages of loaders" % k for k in range(5)]),
    "C28": dict(harness="h_bind", variants=["asan"], quick=8000, thorough=40000,
                technique=SAN + "byte code writing and reading every member of every built-in class in random layouts; a table of members and fields as oracle, all fields of all objects compared "
                     "after every step",
                note="the table was derived from this tree and checked by name; it covers all 710 members of the 21 classes",
                rule="one case = a random layout of some of the classes (members of either game, shorter arrays, members of the script's own), two instances each, initialised by byte code "
                     "with unique values, read back by byte code and changed by native code; non-trivial = distinct layouts",
                require=["values compared", "layouts registered", "layouts refused: too many e", "layouts refused: wrong type", "members without a field"]
                        + ["class " + c for c in CLASSES]),
    "C31": dict(harness="h_math", variants=["asan"], quick=30000, thorough=1500000,
                technique=SAN + "every operation and operator compared with its definition on random values which live alone on the heap",
                note="all finite float values; strings of all bytes; the order of bytes outside ASCII is only required to be consistent",
                rule="one case = one random value of every kind and every operation on it; non-trivial = distinct values",
                require=["vectors compared", "products compared", "matrices compared", "colours compared", "boxes compared", "composed values compared",
                         "string pairs compared"]),
    "C32": dict(harness="h_load", variants=["asan"], quick=9000, thorough=60000,
                technique=SAN + "differential execution: everything loaded is saved again to every kind of stream, with other memory contents, over, after and before other bytes; "
                     "all bytes and the cursor are compared",
                note="every format with a save function; positions from the start of the stream make binary-safe archives and disk images differ behind other bytes, there only "
                     "size, cursor and the bytes around it are compared",
                rule="one case = one random file loaded and saved 11 times; non-trivial = distinct saved bytes",
                require=["bytes compared"] + ["saved: " + k for k in ("again", "file", "FILE", "ofstream", "stringstream", "used buffer", "tight buffer", "embedded")]
                        + ["saved " + k for k in ("bsp", "cutscene library", "disk image", "font", "hierarchy", "material", "mesh", "model", "modelmesh", "mrm", "object", "save-game metadata and state",
                                                  "softskin", "texture", "world")]),
}
