#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in step with what MANIFEST.json claims)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every read stream behaves like one cursor over one byte string",
  "For any content and any sequence of reads, seeks and queries, every read stream (memory, owned or borrowed vector, C file, C++ stream, file path) returns exactly the bytes, little-endian numbers, vectors, matrices, strings and lines found at the cursor, and reports the same cursor and end-of-input as every other backend. A read past the end yields only the bytes that exist (typed reads yield zero), a seek outside the content leaves the cursor inside it, and no such request touches memory outside the content.",
  ["inputs", "histories"], "All byte contents and all interleavings of reads, seeks (any origin, any signed offset) and line reads on all input backends",
  "The stream tests read one fixed buffer front to back; they do not mix seeks, ends of input, backends and line handling.",
  ["src/Stream.cc", "include/zenkit/Stream.hh", "src/MmapPosix.cc"],
  [("typed readers", "src/Stream.cc Read::read_*"), ("backends", "src/Stream.cc detail::Read*"), ("memory mapping", "src/MmapPosix.cc")])
p("C02", "Every write stream stores exactly what was written where it was written",
  "For any sequence of writes and seeks, every write stream (file path, C file, C++ stream, fixed buffer, growing vector) leaves exactly the bytes a single growing byte string would hold, keeps an accurate cursor, and never writes outside its destination; a fixed buffer stores only what fits, and a seek to before the beginning is refused and changes nothing. Reading the result back with the matching typed reads returns the values written.",
  ["inputs", "histories"], "All sequences of typed writes and seeks on all output backends, including overwriting earlier data and fixed buffers that are too small",
  "The tests write one value of each type in order; overwriting after seeking back, growth and exhaustion are not covered.",
  ["src/Stream.cc", "include/zenkit/Stream.hh"],
  [("typed writers", "src/Stream.cc Write::write_*"), ("backends", "src/Stream.cc detail::Write*")])
p("C03", "The virtual file system behaves like a case-insensitive tree of names",
  "After any history of creating, adding, finding, resolving, listing and removing entries, the virtual file system gives the same answers as a plain tree whose names compare case-insensitively (ASCII): what was added is found under any letter case, children are listed once and in order, removed entries are gone with their whole subtree, and everything else is untouched. Looking up a missing path, a path through a file, or an empty path reports absence or the documented error and never corrupts the tree.",
  ["inputs", "histories"], "All histories of tree operations over names of mixed case, odd characters, nested paths, duplicates and missing components",
  "The tests perform a handful of operations on one small fixed tree.",
  ["src/Vfs.cc", "include/zenkit/Vfs.hh", "include/zenkit/Misc.hh", "src/Misc.cc"],
  [("node children set", "src/Vfs.cc VfsNode::create/remove/child"), ("path walk", "src/Vfs.cc Vfs::resolve/mkdir/remove/find"), ("case folding", "src/Misc.cc / include/zenkit/Misc.hh iequals, icompare")])
p("C04", "Mounting merges trees and resolves conflicts by the chosen policy",
  "Mounting a tree, a host directory or a disk image at a directory makes every mounted entry reachable there with its content, merges directories instead of replacing them, and leaves unrelated entries alone. When a file exists on both sides the chosen policy alone decides the survivor: keep the existing one, take the mounted one, or replace the existing one only if it is newer (respectively older) than the mounted one, ties keeping the existing one. The same decides between a file and a directory of the same name.",
  ["inputs", "histories", "configurations"], "All sequences of mounts of overlapping trees from nodes, host directories and disk images under every overwrite policy and all timestamp orders",
  "The tests mount one disk image once; overlap, policies and timestamps are hardly exercised.",
  ["src/Vfs.cc", "include/zenkit/Vfs.hh"],
  [("merge loop", "src/Vfs.cc Vfs::mount"), ("disk mount", "src/Vfs.cc Vfs::mount_disk"), ("host mount", "src/Vfs.cc Vfs::mount_host")])
p("C05", "Saving a virtual file system to a disk image and mounting it loses nothing",
  "Saving any representable tree as a disk image and mounting that image gives back the same tree: the same directories (except empty ones, which the format cannot express and which are left out), file names, bytes of every file, and the modification time given, to the two-second resolution of the format. The catalog that is written is well-formed: entry and file counts, offsets, sizes, last-entry markers and the signature of the chosen game agree with the content, as checked by an independent reader.",
  ["inputs", "configurations"], "All trees (empty, deep, wide, many files, names up to the format's length, empty files, timestamps over the format's range), both game versions",
  "The tests only mount one prepared image and never save a generated tree.",
  ["src/Vfs.cc", "docs/engine/formats/vdf.md"],
  [("catalog writer", "src/Vfs.cc Vfs::save"), ("catalog reader", "src/Vfs.cc Vfs::mount_disk"), ("timestamps", "src/Vfs.cc vfs_unix_to_dos_time / vfs_dos_to_unix_time")])
p("C06", "Values written to an archive are read back unchanged in every encoding",
  "Any sequence of values written to an archive (strings, all integer widths, floats, booleans, colours, vectors, enums, boxes, matrices, raw blocks) is read back in the same order with the same values, in the text, binary and safe-binary encodings alike, within what the encoding can express (single-line strings, raw blocks up to 65535 bytes, finite floats, byte-sized enums in the binary encoding). Floats survive within the precision the encoding stores: exactly in the two binary encodings, to the written decimals in the text encoding. What is written is well-formed for other readers of the format too: every value stands under the name and type it was written with, and headers, counts, object lengths and the table of names agree with the content.",
  ["inputs", "configurations"], "All value sequences including extreme numbers, empty and long strings and raw blocks, in all three encodings, with and without the save-game marker",
  "The tests read two sample archives; no test writes extreme values in every encoding and reads them back.",
  ["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "docs/engine/formats/archive.md"],
  [("text", "src/archive/ArchiveAscii.cc"), ("binary", "src/archive/ArchiveBinary.cc"), ("safe binary", "src/archive/ArchiveBinsafe.cc"), ("header", "src/Archive.cc")])
p("C07", "Archives preserve object structure, sharing and nulls",
  "Any object graph written to an archive comes back with the same shape in every encoding: nesting, names, class and version of every object, null references, and sharing, so that two references to one object are again two references to one object. Skipping an object, read or unread in part, always continues exactly after its end no matter what it contains, and objects of unknown classes do not disturb their neighbours.",
  ["inputs", "programs", "configurations"], "All object trees with nested, repeated, null and unknown objects, all skip points, all three encodings",
  "The tests read two fixed archives with few nested objects and no sharing written by the library itself.",
  ["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "include/zenkit/Object.hh"],
  [("object cache", "src/Archive.cc ReadArchive::read_object / WriteArchive::write_object"), ("begin/end/skip", "src/archive/*.cc read_object_begin, read_object_end, skip_object")])
p("C08", "Reading an archive value as the wrong type is refused",
  "In the encodings that record types (text and safe binary), asking for a value of a type other than the one stored raises a parser error and never returns reinterpreted bytes, and closing or opening an object where there is none is reported rather than misread. A file that is not an archive, or declares an unsupported format, is rejected with an error.",
  ["inputs", "programs"], "All pairs of stored and requested type, at all positions, and all malformed headers",
  "The tests only read archives with the matching types.",
  ["src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinsafe.cc", "src/Archive.cc"],
  [("type tags", "src/archive/ArchiveAscii.cc read_entry, src/archive/ArchiveBinsafe.cc ensure_type"), ("header checks", "src/Archive.cc ArchiveHeader::load")])
p("C09", "Every game object survives saving and loading unchanged",
  "Each kind of game object (all virtual-object classes, visuals, decals, lights, cameras, sounds, triggers, zones, items, characters, AI, event managers, cutscene objects) that is saved and loaded again has every stored attribute equal to the original, for both game versions, every archive encoding, packed or unpacked, in world files and in save-games. What is written follows the format, attribute by attribute under the names the format gives them, and saving the loaded object again produces the same bytes.",
  ["inputs", "configurations"], "All attribute values of all object classes times game version times encoding times save-game mode",
  "The tests load one sample per class and compare it, and save few; attribute combinations and the other encodings and versions are not covered.",
  ["src/vobs/VirtualObject.cc", "src/vobs/Misc.cc", "src/vobs/Trigger.cc", "src/vobs/Camera.cc", "src/vobs/Light.cc", "src/vobs/MovableObject.cc", "src/vobs/Sound.cc", "src/vobs/Zone.cc", "src/CutsceneLibrary.cc"],
  [("per-class load/save", "src/vobs/*.cc"), ("class dispatch", "src/Archive.cc ReadArchive::read_object")])
p("C10", "A world keeps its object tree and way network through saving and loading",
  "Saving a world and loading it gives the same tree of objects (same classes, order, parents and attributes), the same way network (points, their attributes, and edges between the same points), and the same save-game state, for both game versions. (Points that are neither free nor on a way cannot be expressed.) Unknown sections or objects in a world file are skipped without losing what follows.",
  ["inputs", "configurations"], "All worlds over generated object trees and way networks, game versions, encodings and save-game mode",
  "The tests load sample worlds but never save a generated world and compare.",
  ["src/World.cc", "src/world/VobTree.cc", "src/world/WayNet.cc"],
  [("sections", "src/World.cc World::load/save"), ("object tree", "src/world/VobTree.cc"), ("way network", "src/world/WayNet.cc")])
p("C11", "World geometry is decoded, triangulated and re-encoded faithfully",
  "World meshes and space-partition trees encoded by an independent reference encoder are decoded to exactly the encoded vertices, features, materials, polygons, flags, light maps, nodes, sectors and portals, and saving and loading preserves them for both game versions. The triangle list is exactly the fan decomposition of the drawable leaf polygons in order, and bounding boxes derived from oriented boxes enclose them exactly.",
  ["inputs", "configurations"], "All generated meshes and trees (polygon sizes, flag combinations, index widths, light-map sharing, tree shapes), both game versions",
  "The only geometry test uses proprietary data that is absent or one small sample; saving geometry is not tested.",
  ["src/Mesh.cc", "src/world/BspTree.cc", "src/Boxes.cc", "src/Material.cc"],
  [("chunk codecs", "src/Mesh.cc Mesh::load/save"), ("fan triangulation", "src/Mesh.cc Mesh::triangulate"), ("tree codec", "src/world/BspTree.cc"), ("box hull", "src/Boxes.cc OrientedBoundingBox::as_bbox")])
p("C12", "A save-game reads back as it was written",
  "A save-game written to a directory and opened again has the same metadata, script state (symbols, dialogue infos, guild attitudes, missions), current world name, thumbnail and world contents for both game versions. Loading and re-saving never touches files outside the save-game's own directory.",
  ["inputs", "configurations"], "All generated save-games of both games with arbitrary symbol values, logs, missions and worlds",
  "The tests load sample save-games and compare a few fields; the write side is exercised with one unmodified sample.",
  ["src/SaveGame.cc", "include/zenkit/SaveGame.hh"],
  [("metadata", "src/SaveGame.cc SaveMetadata"), ("script state", "src/SaveGame.cc SaveState"), ("directory layout", "src/SaveGame.cc SaveGame::load/save")])
p("C13", "Model geometry files decode to what they encode and survive re-encoding",
  "Multi-resolution meshes, model meshes, soft-skin meshes, model hierarchies and whole models produced by an independent reference encoder are decoded field by field to the encoded data (positions, normals, wedges, triangles, weights, attachments, nodes, materials, boxes), and anything loaded or built can be saved and loaded again without any difference, for both game versions.",
  ["inputs", "configurations"], "All generated models (zero or many sub-meshes, attachments, weights, nodes), both game versions, at any position in a stream",
  "The tests load four fixed model files and check a few values; saving models is not tested.",
  ["src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/ModelMesh.cc", "src/ModelHierarchy.cc", "src/Model.cc"],
  [("section tables", "src/MultiResolutionMesh.cc"), ("weights", "src/SoftSkinMesh.cc"), ("chunk sequence", "src/ModelMesh.cc, src/ModelHierarchy.cc")])
p("C14", "Animations and morph meshes decode to what they encode",
  "Animation and morph-mesh files from an independent reference encoder decode to the encoded header fields, events, node order and samples: each sample position is the quantised value scaled and offset by the file's own range, each rotation is a unit quaternion with the encoded direction, and morph animations keep their vertex lists and frames apart.",
  ["inputs"], "All generated animations and morph meshes: any node, frame and event counts, any quantised sample, any scaling",
  "The tests compare a few samples of one animation and one morph mesh per game.",
  ["src/ModelAnimation.cc", "src/MorphMesh.cc"],
  [("sample decoding", "src/ModelAnimation.cc read_sample_position/read_sample_quaternion"), ("morph animations", "src/MorphMesh.cc")])
p("C15", "Model scripts mean the same in text and in binary form",
  "A model script gives the same animations, aliases, blends, combinations, disabled animations, mesh registrations, tags and events, with the same attributes and in the same order, whether it is read from source text or from its compiled form, and both equal the script that was written. Letter case of keywords, comments, optional arguments and the documented tolerated irregularities do not change the result.",
  ["inputs", "programs"], "All generated scripts in both forms with optional arguments present or absent and varied layout, plus irregular source text",
  "The tests read one text and one binary script.",
  ["src/ModelScript.cc", "src/ModelScriptDsl.cc"],
  [("binary reader", "src/ModelScript.cc parse_binary_script"), ("tokenizer and parser", "src/ModelScriptDsl.cc")])
p("C16", "Textures keep their pixels through loading, conversion and saving",
  "A texture of any size, format and number of mipmaps loads to the stored dimensions, palette and level data, saves to the identical bytes, and decodes each level to the RGBA pixels its format defines. A built texture holds, at each level, the image that was added for that level, converted to the requested format with no more than the format's quantisation error, and exporting it for graphics tools describes the same data.",
  ["inputs", "configurations"], "All sizes (powers of two and others), mipmap counts, pixel formats and pixel values; all source/target format pairs of the builder",
  "The tests load one compressed texture and compare one level.",
  ["src/Texture.cc", "src/addon/texcvt.cc", "include/zenkit/Texture.hh", "docs/engine/formats/texture.md"],
  [("level sizes", "src/Texture.cc _ztex_mipmap_size"), ("pixel conversion", "src/Texture.cc _ztex_to_rgba/_ztex_from_rgba"), ("builder", "src/Texture.cc TextureBuilder::build"), ("export", "src/addon/texcvt.cc")])
p("C17", "Fonts, materials and cutscene libraries survive saving and loading",
  "Any font, material or cutscene library that is saved and loaded again equals the original in every field, in both game versions and every archive encoding it can be stored in. A cutscene library finds every block by its exact name, whatever order it was stored in, and finds nothing for a name it does not contain.",
  ["inputs", "configurations"], "All field values of fonts, materials and libraries; all lookups of present and absent names",
  "The tests load one sample of each and look up present names only.",
  ["src/Font.cc", "src/Material.cc", "src/CutsceneLibrary.cc"],
  [("font codec", "src/Font.cc"), ("material codec", "src/Material.cc"), ("block lookup", "src/CutsceneLibrary.cc block_by_name")])
p("C18", "A compiled script is loaded completely and every symbol can be found",
  "Loading a compiled script yields every symbol with the name, type, flags, counts, source location, initial values, parent and address that an independent encoder wrote, and the exact code. Every symbol is found by index, by name in any letter case, and functions, prototypes and instances by address; parameters, members and instances of a class are enumerated exactly, unknown lookups find nothing, and value access through a symbol checks type, bounds and the instance the member belongs to.",
  ["inputs", "programs"], "All generated symbol tables and code sections, all lookups, all value accesses with right and wrong types and indices",
  "The script tests need proprietary files and check a few symbols.",
  ["src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh", "docs/engine/formats/script_binaries.md"],
  [("symbol decoding", "src/DaedalusScript.cc DaedalusSymbol::load"), ("indices", "src/DaedalusScript.cc DaedalusScript::load, find_symbol_by_*"), ("value access", "src/DaedalusScript.cc DaedalusSymbol::get_*/set_*")])
p("C19", "The script machine computes what the program says",
  "Executing any well-formed script function gives the results a plain interpreter of the documented instruction set gives: the same arithmetic (32-bit, wrapping), comparisons, assignments to variables, array elements and instance members, string values, branches, nested and recursive calls with their own arguments and results, and the same final value of every variable. The evaluation stack is balanced: after a call returns, nothing of it is left behind except its result, however often it is repeated.",
  ["programs", "inputs", "histories"], "All generated programs over all instructions with all operand values, repeated calls in one machine",
  "There is no test of instruction semantics at all.",
  ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "docs/engine/formats/bytecode.md"],
  [("instruction loop", "src/DaedalusVm.cc DaedalusVm::exec"), ("calls and stack repair", "src/DaedalusVm.cc push_call/pop_call"), ("temporary strings", "src/DaedalusVm.cc push_string/pop_string/get_free_string")])
p("C20", "Native functions and script code exchange values faithfully",
  "A native function registered for an external or overriding a script function receives exactly the arguments the script passed, in order and with their types, and the script receives exactly what it returned; registration, calls from native code and instance binding with a wrong name, type or number of arguments are refused with an error. Instances initialised by scripts hold the values the script assigned, are seen by native code through the bound members, and the current-instance context and self reference are restored afterwards.",
  ["programs", "inputs", "histories"], "All signatures of registered functions, all argument values, nested native/script/native calls, instances of bound and opaque classes",
  "There is no test of the native interface.",
  ["include/zenkit/DaedalusVm.hh", "src/DaedalusVm.cc", "include/zenkit/DaedalusScript.hh"],
  [("registration checks", "include/zenkit/DaedalusVm.hh register_external/override_function"), ("marshalling", "include/zenkit/DaedalusVm.hh pop_values_for_external/push_value_from_external"), ("instances", "include/zenkit/DaedalusVm.hh init_instance/allocate_instance")])
p("C21", "Script errors are contained and leave the machine usable",
  "Any error during script execution (division by zero, bad access, missing external, wrong types, bad jump, exhausted or empty stack, an error thrown by a native function) surfaces as a script error or is handled by the registered strategy, never as memory corruption, even for damaged bytecode. Afterwards the machine still works: calls made after any number of failed calls give the same results as in a machine that never failed.",
  ["programs", "fault_sequences", "histories"], "All points at which a program can fail, all three handler strategies, arbitrary bytecode, repeated failures",
  "No test executes a failing script.",
  ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh"],
  [("error handling", "src/DaedalusVm.cc DaedalusVm::exec catch, StackGuard"), ("stack bounds", "src/DaedalusVm.cc push_*/pop_*"), ("jump check", "src/DaedalusVm.cc DaedalusVm::jump")])
p("C22", "Damaged input never corrupts memory or crashes the process",
  "Loading any byte sequence with any loader, truncated, corrupted or hostile, either succeeds or raises an exception the caller can catch. It never reads or writes memory outside its objects, never performs undefined operations, and never terminates the process.",
  ["inputs", "fault_sequences"], "All byte sequences for all file formats, in particular every truncation and field-level corruption of valid files",
  "The tests only load valid files.",
  ["src/Vfs.cc", "src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "src/World.cc", "src/Mesh.cc", "src/world/BspTree.cc", "src/MultiResolutionMesh.cc", "src/Texture.cc", "src/DaedalusScript.cc", "src/ModelScriptDsl.cc", "src/ModelScript.cc"],
  [("all loaders", "src/**/*.cc load()")])
p("C23", "Loading always terminates with work bounded by the input",
  "Loading any byte sequence with any loader finishes: the number of operations it performs on its input stream and the memory it requests stay bounded in terms of the input's size and declared limits, so truncated or damaged files cannot make a loader run forever.",
  ["inputs", "fault_sequences"], "All byte sequences for all file formats, in particular input that ends in the middle of any construct",
  "The tests only load valid, complete files.",
  ["src/Stream.cc", "include/zenkit/Stream.hh", "src/ModelScriptDsl.cc", "src/World.cc", "src/archive/ArchiveAscii.cc", "src/Vfs.cc"],
  [("chunk loops", "include/zenkit/Stream.hh proto::read_chunked"), ("tokenizer", "src/ModelScriptDsl.cc"), ("section scan", "src/World.cc, src/archive/ArchiveAscii.cc skip_object")])
p("C24", "Unknown or oversized chunks never desynchronise a chunked file",
  "In every chunked file format, chunks of unknown type and surplus bytes at the end of a known chunk are skipped using the declared length, so the rest of the file is read as if they were absent; content read beyond the declared end of its chunk does not shift the chunks after it either. Chunks written by the library declare exactly the length of their content.",
  ["inputs"], "All insertions of unknown chunks at all chunk boundaries, of surplus bytes in all chunks and all chunks declared too short, in all chunked formats",
  "The tests load unmodified samples only.",
  ["include/zenkit/Stream.hh", "src/Mesh.cc", "src/ModelMesh.cc", "src/ModelHierarchy.cc", "src/ModelAnimation.cc", "src/MorphMesh.cc", "src/world/BspTree.cc", "src/MultiResolutionMesh.cc", "src/ModelScript.cc"],
  [("resynchronisation", "include/zenkit/Stream.hh proto::read_chunked/write_chunk")])
p("C25", "What is loaded depends only on the bytes of the file",
  "Loading the same bytes gives the same result every time: through any stream backend, at any position inside a larger stream (safe-binary archives, which contain absolute positions, at the beginning), into fresh objects in memory with any previous content, and whatever was loaded before. After loading, the stream stands at the end of what was consumed, the same for every backend.",
  ["inputs", "configurations", "histories"], "All valid files, all stream backends and offsets, all prior memory contents and loading histories",
  "The tests load each sample once from one kind of stream.",
  ["src/Stream.cc", "src/Archive.cc", "src/MultiResolutionMesh.cc", "src/Mesh.cc", "src/vobs/VirtualObject.cc"],
  [("loaders", "src/**/*.cc load()"), ("stream backends", "src/Stream.cc")])
p("C26", "Independent objects can be used from different threads",
  "Loading, saving, converting and running scripts on separate objects in separate threads at the same time gives exactly the results of doing so one after the other, with no data race between the threads.",
  ["schedules", "inputs"], "All interleavings of loader, saver, archive, file-system and script operations on disjoint objects",
  "All tests are single-threaded.",
  ["src/archive/ArchiveBinsafe.cc", "src/Archive.cc", "src/Stream.cc", "src/Vfs.cc", "src/DaedalusVm.cc", "src/Logger.cc"],
  [("shared static state", "function-local and namespace-scope statics in src/**/*.cc")])
p("C27", "Log messages reach the installed sink once, complete and filtered by level",
  "Every message at or above the configured importance is delivered exactly once, in order, with its level, origin and full formatted text (up to the documented buffer), to the sink installed last; less important messages and messages without a sink are dropped. Logging never disturbs the operation that logs, whatever the message contains.",
  ["inputs", "histories"], "All sequences of sink/level changes and messages of any length and content",
  "No test covers logging.",
  ["src/Logger.cc", "include/zenkit/Logger.hh"],
  [("filter and format", "src/Logger.cc Logger::logv/set/set_default")])
p("C28", "Built-in script classes are bound member by member",
  "For every built-in script class, each member of the script class is bound to the native field of the same meaning, type and length, for both games' class layouts: a value assigned to a member by a script is seen in exactly that field and in no other, and the reverse. Classes absent from a script are ignored.",
  ["inputs", "configurations"], "All members of all built-in classes, all element indices, all values",
  "No test registers the script classes without proprietary files.",
  ["src/addon/daedalus.cc", "include/zenkit/addon/daedalus.hh"],
  [("bindings", "src/addon/daedalus.cc register_")])
p("C29", "Everything acquired is released, also when an operation fails",
  "Once the objects, streams, archives and file systems involved are destroyed, nothing the library acquired for them remains: no memory, no open file, no mapped file. This also holds when a file cannot be opened or a load fails with an exception at any point. Loading, using and dropping a file any number of times therefore needs no more than doing so once. Objects a file makes own each other in a circle are exempt.",
  ["inputs", "histories", "crash_points"], "All files of all formats, intact, cut off at any point or damaged, through all kinds of streams, any number of times",
  "The tests load each sample once and do not look at what remains.",
  ["src/MmapPosix.cc", "src/Stream.cc", "src/Vfs.cc", "src/Archive.cc", "src/DaedalusScript.cc", "src/DaedalusVm.cc", "src/World.cc"],
  [("files and mappings", "src/MmapPosix.cc Mmap, src/Stream.cc ReadFile/ReadMmap/WriteFile"), ("object ownership", "src/Archive.cc ReadArchive::read_object, src/world/VobTree.cc"), ("instances", "src/DaedalusScript.cc DaedalusOpaqueInstance")])
p("C30", "Loading into an object replaces everything it held before",
  "Loading a file into an object which already holds something, from an earlier load, complete or failed, gives exactly what loading it into a new object gives: nothing of the earlier content remains, is mixed with the new one or changes how it is read. This holds for every asset with a load function of its own: fonts, materials, cutscene libraries, textures, meshes, models and their parts, animations, model scripts, compiled scripts, BSP trees, worlds and save-games.",
  ["inputs", "histories"], "All sequences of files of a format, intact, cut off or damaged, loaded into the same object",
  "The tests load each sample once into a new object.",
  ["src/Font.cc", "src/CutsceneLibrary.cc", "src/Material.cc", "src/Texture.cc", "src/Mesh.cc", "src/MultiResolutionMesh.cc", "src/ModelMesh.cc", "src/MorphMesh.cc", "src/ModelScript.cc", "src/DaedalusScript.cc", "src/World.cc", "src/SaveGame.cc", "src/world/BspTree.cc"],
  [("chunked formats", "src/Mesh.cc Mesh::load, src/MultiResolutionMesh.cc MultiResolutionMesh::load, src/world/BspTree.cc BspTree::load"), ("scripts", "src/DaedalusScript.cc DaedalusScript::load, src/ModelScript.cc ModelScript::load"), ("worlds", "src/World.cc World::load"), ("textures", "src/Texture.cc Texture::load")])
p("C31", "Vectors, matrices, boxes and name comparison follow their definitions",
  "The elements of a vector, quaternion (x, y, z, w), colour or matrix are the same through their names, indices and pointer, and changing one changes no other and nothing outside of the value; products are element-wise, transposing exchanges rows and columns and the identity is one. The axis-aligned box of an oriented box is the smallest one enclosing its eight corners. Two values are equal exactly if all of their parts are (vectors, matrices, glyphs, animation samples, polygon flags, trigger targets). Boxes and dates survive being stored and take exactly their size. Comparison ignoring case depends on nothing but the characters of both strings: it is an equivalence in which only upper and lower case letters coincide, and a strict order consistent with it.",
  ["inputs"], "All finite values, all strings of bytes",
  "No test uses these types on their own (the header says so for the enclosing box).",
  ["include/zenkit/Misc.hh", "src/Misc.cc", "src/Boxes.cc", "src/Date.cc", "src/Font.cc", "src/ModelAnimation.cc", "src/Mesh.cc"],
  [("vectors and matrices", "include/zenkit/Misc.hh"), ("boxes", "src/Boxes.cc OrientedBoundingBox::as_bbox"), ("names", "src/Misc.cc iequals/icompare")])
p("C32", "Saving is repeatable and independent of where it is written",
  "What a save writes depends on nothing but the object saved: saving the same object again, through a file, a fixed buffer, a growing buffer or a stream of the user's own, at any time and whatever memory held before, gives the same bytes. The object is not changed by being saved. Nothing before the position at which the save began nor behind the end of what it wrote is touched, and the stream is left directly behind it, so that several things can be written one after another. The last sentence does not hold for formats with absolute positions (binary-safe archives, disk images), and the date and user recorded by an archive are those of the save.",
  ["inputs", "histories", "configurations"], "All objects of all formats which can be saved, all kinds of streams, positions and surrounding content",
  "The tests save nothing but a few textures, fonts and archives, each once and into a growing buffer.",
  ["src/Stream.cc", "src/Archive.cc", "src/archive", "src/Mesh.cc", "src/Texture.cc", "src/ModelScript.cc", "src/ModelScriptDsl.cc", "src/Font.cc", "src/Vfs.cc", "src/world"],
  [("streams", "src/Stream.cc Write"), ("archives", "src/archive/ArchiveAscii.cc, src/archive/ArchiveBinary.cc, src/archive/ArchiveBinsafe.cc write_header/seek"), ("chunks", "include/zenkit/Stream.hh proto::write_chunk")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
