#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Image contents decode to exactly the stored property tree",
 "Opening and parsing a well-formed image, under each of the standard encryption keys, yields exactly the nodes that were stored: the same names, the same nesting, the same value kinds and bit-identical values, with no node missing, duplicated or invented. This holds for every mix of property kinds and nesting, for every way of storing a string (inline or by reference, narrow or wide, short or long form) and for every compact or extended form of an integer.",
 ["inputs","configurations"],"all property trees up to a size bound over an alphabet that contains every property kind and every value encoding, times string storage form, times encryption key",
 "The suite parses two or three fixture files and spot-checks a handful of nodes; it never varies nesting, kinds, value encodings, string storage form and key together.",
 ["src/wz_image.rs","src/util/parse_property.rs","src/reader.rs","src/property/mod.rs","src/property/string.rs","src/property/vector.rs"],
 [("image header check and child listing","src/wz_image.rs resolve_children"),("property list decoder","src/util/parse_property.rs parse_property_list / parse_extended_prop"),("string and number readers","src/reader.rs WzSliceReader")],
 ["children map and object kind/value of every node after parse"])
p("C02","Path lookup in an unparsed image agrees with lookup after parsing",
 "For every image and every path, looking the path up without parsing the image returns the same value as parsing the image and then following the path, and reports absence exactly when the parsed tree has no such node. A link node found this way is returned as the link itself (paths that lead through a link are not followed without parsing). The lookup does not change the image's state.",
 ["inputs"],"every image of C01's space, and for each one every existing path, every proper prefix, and every one-step mutation of a path (missing name, name below a leaf, name of a sibling's child)",
 "Only a few existing paths of one fixture are looked up lazily; absent names, names below leaves and descent through every container kind are never compared with the parsed tree.",
 ["src/wz_image.rs","src/util/parse_property.rs","src/util/node_util.rs"],
 [("lazy lookup","src/wz_image.rs at_path; src/util/parse_property.rs get_node"),("parsed lookup","src/node.rs at_path")],
 ["result of the lazy lookup versus the parsed tree"])
p("C03","Classic archives open to exactly the stored tree, with the version detected",
 "Opening a well-formed classic (PKG1) archive lists exactly the directories and images that were stored, at their stored positions in the tree, and each image's content is the content stored for it, whether the format version is given or left to be detected and whether or not the archive carries a version field. Giving a version that does not belong to the archive makes opening fail rather than produce a tree. (A directory block with no entries proves no version; an archive's images start with one of the three image header bytes.)",
 ["inputs","configurations"],"all directory trees up to a size bound, times patch version, times header form (version field present or absent), times header size, times key, times given or detected version",
 "The suite opens one archive of one version; detection over many versions, nested directories, unusual header sizes and the two header forms are not exercised.",
 ["src/file.rs","src/directory.rs","src/header.rs","src/util/offset.rs","src/util/version/pkg1.rs"],
 [("version trial","src/file.rs parse_pkg1 / try_decode_with_wz_version_number; src/util/version/pkg1.rs"),("entry offsets","src/util/offset.rs read_wz_offset"),("directory entries","src/directory.rs resolve_entry_pkg1")],
 ["tree after parse, detected version, content of every image"])
p("C04","New-generation archives open to exactly the stored tree for every profile",
 "Opening a well-formed new-generation (PKG2) archive, of any of the supported releases and with either header form, lists exactly the stored directories and images and gives each image its stored content, with no version supplied. An archive whose two header hashes admit no version that makes its entries readable fails to open. (The first name of the archive is one the release can prove its key by: ASCII for releases 1196 to 1198, with at least two characters for 1196 and 1197; the 32-bit releases store no empty directory block.)",
 ["inputs","configurations"],"all directory trees up to a size bound, times release profile, times header hash values, times first-entry name forms",
 "No fixture of these formats exists in the repository; only the arithmetic helpers have unit tests.",
 ["src/file.rs","src/directory.rs","src/header.rs","src/util/offset.rs","src/util/profile.rs","src/util/version/pkg2.rs","src/util/string_decryptor/pkg2_decryptor.rs"],
 [("profile trial","src/file.rs parse_pkg2 / try_pkg2_profile"),("entry list and encrypted counts","src/directory.rs resolve_entry_pkg2 / resolve_entry_pkg2_v64"),("header forms","src/header.rs read_from_buf"),("offset calculators","src/util/offset.rs"),("first-entry name key","src/util/string_decryptor/pkg2_decryptor.rs")],
 ["tree after parse, content of every image"])
p("C05","Encryption-key detection picks the key a file was written with",
 "When no key is supplied, opening an archive (whose first names are plain text of at least two characters) or a standalone image written with any standard key detects that key and decodes correctly; when a key is supplied that fits the file it is used, and when it does not fit an archive the right standard key is still found. A standalone image that no standard key explains is reported as an error instead of being decoded with a wrong key.",
 ["inputs","configurations"],"file kind, times key used to write it (standard or private), times key supplied by the caller (none, right, wrong), times first-name length and character class",
 "The fixtures cover two keys with no key supplied, and never the full matrix of written key, supplied key and file kind.",
 ["src/util/string_decryptor/mod.rs","src/util/version/mod.rs","src/file.rs","src/node.rs","src/reader.rs","src/property/lua.rs"],
 [("archive key guess","src/util/string_decryptor/mod.rs guess_decryptor_from_wz_file"),("image key guess","src/util/version/mod.rs guess_iv_from_wz_img"),("shared key per iv","src/util/string_decryptor/mod.rs get_decryptor_by_iv"),("script key guess","src/property/lua.rs")],
 ["decoded names, node construction result"])
p("C06","Encoded strings and compact integers round-trip through the codec",
 "Every string the format can store (empty, narrow, wide, any length up to and across the short/long length boundary) that is encrypted and then read back through any reading path of the reader gives the original text, and re-encrypting what was read gives the stored bytes. Every compact integer and long value reads back as the value that was stored, leaving the cursor exactly after it.",
 ["inputs"],"all strings over a small alphabet up to length 3, all lengths across the boundaries (0..300 and the key-batch boundaries) for both widths, all keys, all 8- and 16-bit integers, boundary 32/64-bit integers, all reading entry points",
 "The unit tests use one repeated letter at two lengths with one or two keys.",
 ["src/reader.rs","src/property/string.rs","src/util/string_decryptor/ecb_decryptor.rs"],
 [("string decoding","src/reader.rs resolve_unicode_raw / resolve_ascii_raw / read_wz_string*"),("string encoding","src/property/string.rs encrypt_str, WzStringMeta"),("integers","src/reader.rs read_wz_int / read_wz_int64")],
 ["decoded text, cursor position, re-encoded bytes"])
p("C07","The decryption keystream does not depend on how it was grown",
 "For a given key, the keystream byte at a given position is the same whatever sequence of size requests, single-byte reads and decryptions came before, and equals the cipher-feedback definition of the format. Requests never shrink or rewrite what was already produced.",
 ["histories"],"all sequences of keystream operations up to a depth over sizes around the block and batch boundaries, for every key kind",
 "Tests grow the stream in one or two fixed orders and check its length, not its bytes.",
 ["src/util/string_decryptor/ecb_decryptor.rs","src/util/string_decryptor/pkg2_decryptor.rs"],
 [("batch growth","src/util/string_decryptor/ecb_decryptor.rs ensure_key_size / at / try_at / decrypt_slice")],
 ["keystream bytes through at, try_at, decrypt_slice"],[("keys","keystream produced so far","src/util/string_decryptor/ecb_decryptor.rs")])
p("C08","Concurrent decoding with a shared key is correct and never blocks forever",
 "Any number of threads may decode strings, bitmaps or whole images that share one key at the same time, and each obtains exactly the result it would obtain alone, in every interleaving. No interleaving deadlocks or panics.",
 ["schedules"],"all interleavings of 2 to 3 threads with 1 to 2 decoding operations each, up to a preemption bound, with requests that make the shared keystream grow",
 "The tests are single-threaded; the one parallel example is not checked and would sample a few schedules only.",
 ["src/reader.rs","src/util/string_decryptor/mod.rs","src/property/png.rs","src/property/string.rs"],
 [("grow under write lock then decrypt under read lock","src/reader.rs get_decrypt_slice"),("bitmap key use","src/property/png.rs"),("shared keys","src/util/string_decryptor/mod.rs")],
 ["decoded values per thread; absence of deadlock"],[("shared keystream","lazily grown key bytes behind one lock","src/util/string_decryptor/mod.rs")],
 "lock operations must be visible to a controlled scheduler; done by linking the crate against a substitute for the standard library's sync module, no source hook")
p("C09","Concurrent use of one tree is atomic and never deadlocks",
 "When several threads parse, look up, walk, resolve links in, build paths in, export and unparse one shared tree, every interleaving finishes, none panics, and each thread sees an image either fully parsed or not parsed, never partially. Parsing the same node from several threads leaves the same tree as parsing it once. What the threads obtain and leave is what some serial order of their operations (of the steps from node to node, for operations that visit several nodes) gives; a uol link that another thread's lock is in the way of may stay unresolved.",
 ["schedules"],"all interleavings of 2 threads with 1 to 2 tree operations each and of 3 threads with one, to completion for single atomic operations and up to a preemption bound otherwise, over small images, archives, packs and hand-made trees where the operations touch the same nodes; operations that move or adopt nodes (add, transfer_childs, resolve_childs_parent) are not part of it",
 "The crate advertises thread safety but its tests never run two threads on one node; lock-order inversions need a specific interleaving.",
 ["src/node.rs","src/wz_image.rs","src/util/walk.rs","src/util/node_util.rs"],
 [("per-node lock","src/node.rs WzNode / WzNodeArc"),("parse under write lock","src/node.rs parse"),("upward navigation","src/node.rs get_full_path, get_parent_wz_image, get_base_wz_file")],
 ["operation results and final tree; absence of deadlock"],[("object_type, children","parsed state and children map guarded by the node lock","src/node.rs")],
 "as C08")
p("C10","Parse, unparse and re-parse are idempotent and reversible in any order",
 "After any sequence of parse, unparse and lookup operations on the nodes of a tree, a parsed node has exactly its stored children and an unparsed one has none, parsing twice changes nothing, and an unparsed node can be parsed again to the same content. A failed parse leaves the node unparsed and usable.",
 ["histories"],"all operation sequences up to a depth over the nodes of standalone images, classic archives with nested directories and packs, with state deduplication",
 "Tests parse once, and unparse once at most; sequences over different node kinds are not explored.",
 ["src/node.rs","src/wz_image.rs","src/directory.rs","src/file.rs","src/ms/file.rs","src/ms/ms_image.rs"],
 [("parse / unparse","src/node.rs"),("directory entry cache","src/directory.rs verify_status, entries"),("image flag","src/wz_image.rs is_parsed")],
 ["children names, parsed content after every step"],[("is_parsed flags, verify_status, entries","what has been parsed","src/wz_image.rs, src/directory.rs, src/file.rs, src/ms")])
p("C11","Navigation and path queries agree with the tree's parent-child structure",
 "For every tree and every node, looking up a child name, a path, a relative path with parent steps, and the enclosing image or archive gives exactly the node the tree structure defines, and absence otherwise; a node's full path looks up that same node. Moving all children of a node to a node of another branch leaves every child in exactly one place, with its parent set to its new position.",
 ["inputs","histories"],"all trees up to a size bound, all nodes, all path strings up to a length over the tree's names plus '.', '..', empty and missing segments, and all short sequences of adding and moving children",
 "Unit tests check a few paths in one or two hand-made trees.",
 ["src/node.rs","src/util/node_util.rs","src/util/parse_property.rs"],
 [("lookup","src/node.rs at / at_path / at_relative / at_path_relative / at_path_parsed"),("paths","src/node.rs get_full_path / get_path_from_root / get_path_from_image"),("ancestors","src/node.rs filter_parent / get_parent_wz_image / get_base_wz_file"),("moving","src/node.rs transfer_childs, src/util/node_util.rs resolve_childs_parent")],
 ["returned node identity, returned path text"])
p("C12","Link nodes resolve to the node their text names, or report failure",
 "Resolving a relative link, a link within the image or a link across the archive returns exactly the node reached by following the stored path from the point the link kind defines, parsing the target image when asked to; when nothing is there, resolution reports absence and changes nothing except, when asked to parse, the parse state of the nodes on the path. A relative link whose target contains the link itself stays a link. Resolution terminates for every link, including links that refer to each other or to themselves.",
 ["inputs","configurations"],"all placements of up to two links in small trees, all target texts over the trees' names with parent steps and missing names, all three link kinds, forced or not",
 "Tests follow one or two valid links of each kind in hand-made trees.",
 ["src/util/node_util.rs","src/property/string.rs","src/property/png.rs","src/util/parse_property.rs","src/wz_image.rs"],
 [("link resolution","src/util/node_util.rs resolve_inlink / resolve_outlink / get_resolved_uol_path / resolve_uol"),("linked bitmaps","src/property/png.rs get_image")],
 ["resolved node identity, tree state after resolution"])
p("C13","Walking a tree visits every place in it exactly once and disturbs nothing",
 "A walk calls the visitor exactly once for every place in the tree (a node reached through a resolved link is visited at that place too), a parent before its children, and changes nothing. When asked to parse as it goes, it includes everything inside images and archives and leaves every image released. The visitor may look at, and navigate from, the node it is given.",
 ["inputs","histories"],"all trees up to a size bound made of plain nodes, directories and images, with some images parsed beforehand, forced or not, and visitors that use the node's own query operations",
 "One test counts nodes in one fixture.",
 ["src/util/walk.rs","src/node.rs"],
 [("recursion","src/util/walk.rs walk_node"),("release","src/util/walk.rs unparse after visiting")],
 ["visited paths in order; parsed state afterwards"])
p("C14","Bitmap pixels decode exactly for every format and size",
 "For every supported pixel format and every width and height, the decoded image has the stored dimensions and each pixel is the colour the format defines for the stored bits. Formats or payloads that cannot be decoded give an error.",
 ["inputs","configurations"],"all formats, all widths and heights up to a bound including sizes that are not multiples of the block size, all 16-bit pixel values for the 16-bit formats, all block modes for the compressed formats",
 "Tests compare a few stored bitmaps of one fixture, all of convenient size.",
 ["src/property/png.rs","src/util/color.rs"],
 [("format dispatch","src/property/png.rs extract_png"),("block formats","src/property/png.rs dxt decoding"),("colour conversion","src/util/color.rs")],
 ["decoded image buffer"])
p("C15","A bitmap's stored payload is recovered whatever its container form",
 "A bitmap payload stored as a plain compressed stream or as encrypted chunks of any division decodes to the same pixels, for every standard key, and the declared format, size and scale survive. Reading it does not disturb other readers that share the key.",
 ["inputs","configurations"],"payload bytes, times container form, times all ways to cut a short payload into chunks, times key, times format code and scale",
 "No fixture uses encrypted chunks; only the plain form is tested.",
 ["src/property/png.rs","src/util/parse_property.rs"],
 [("container detection and chunk decryption","src/property/png.rs get_raw_data / get_compressed_data"),("header fields","src/util/parse_property.rs canvas decoding")],
 ["decoded pixels, header fields"])
p("C16","Sounds, scripts, raw data and videos are extracted byte for byte",
 "Extracting a sound, script, raw block or video gives exactly the bytes or text that were stored, with the container header the sound kind needs and the stored duration and kind. Saving to a file writes exactly those bytes.",
 ["inputs","configurations"],"payload sizes 0..N, sound kinds and header forms, script text over a small alphabet and across the key-check window, keys",
 "Tests extract one or two fixture items.",
 ["src/property/sound.rs","src/property/lua.rs","src/property/raw_data.rs","src/property/video.rs","src/util/parse_property.rs"],
 [("sound kinds","src/property/sound.rs"),("script decoding","src/property/lua.rs"),("ranges","src/property/raw_data.rs, src/property/video.rs")],
 ["returned bytes, text, saved files"])
p("C17","Packs of both generations list and decrypt exactly what was stored",
 "Opening a well-formed pack of either generation lists exactly the stored images under their stored paths, and each one decrypts and parses to its stored content, for every file name, salt and entry layout. A file that is neither is rejected with an error.",
 ["inputs","configurations"],"pack generation, file names, salt lengths and bytes, entry counts, entry sizes around the block and partial-encryption boundaries, image content",
 "The repository has no pack fixture; only cipher helpers have unit tests.",
 ["src/ms/header.rs","src/ms/file.rs","src/ms/ms_image.rs","src/ms/snow2_decryptor.rs","src/ms/snow2_reader.rs","src/ms/chacha20_reader.rs","src/ms/utils.rs"],
 [("header and version trial","src/ms/header.rs"),("entry table","src/ms/file.rs"),("image decryption","src/ms/ms_image.rs"),("ciphers","src/ms/snow2_decryptor.rs, src/ms/chacha20_reader.rs")],
 ["tree after parse, content of every image"])
p("C18","Exporting to JSON keeps every name and value",
 "Exporting a parsed tree to plain JSON gives an object that mirrors the tree, with every name present once and every value equal to the stored one (non-finite numbers, which JSON cannot hold, as null; a child named like a field of a bitmap or sound stands for itself), and never fails for a tree the library can hold. Serialising a node's object and reading it back gives an equal object for every kind JSON carries, which excludes raw payloads and non-finite numbers.",
 ["inputs"],"all trees of C01's space plus numeric extremes (infinities, not-a-number, limits), all property kinds",
 "Tests serialise a few nodes; extremes and every kind are not covered.",
 ["src/node.rs","src/object.rs","src/property/mod.rs","src/property/string.rs","src/property/vector.rs"],
 [("export","src/node.rs to_json / to_simple_json"),("serde forms","src/object.rs, src/property/*")],
 ["JSON value"])
p("C19","Damaged input is reported as an error and harms nothing else",
 "Opening, parsing, looking up in and extracting from a truncated or corrupted file ends with a result or an error: it never panics, never hangs and never exhausts memory. Afterwards other files that share the same keys still decode correctly.",
 ["inputs","fault_sequences"],"for a set of small well-formed files of every kind: every truncation length, every single-byte replacement from a set of hostile values at every position, and every pair of such faults in the structural fields",
 "Only a couple of wrong-version cases are tested; damaged input is unbounded.",
 ["src/reader.rs","src/wz_image.rs","src/util/parse_property.rs","src/directory.rs","src/file.rs","src/property/png.rs","src/property/sound.rs","src/property/lua.rs","src/ms/header.rs","src/ms/file.rs","src/ms/ms_image.rs"],
 [("bounds-checked reads","src/reader.rs"),("count and offset checks","src/directory.rs, src/util/parse_property.rs"),("payload extraction","src/property/*")],
 ["result of each call; state of shared keys afterwards"],[("shared keys","one lock per key shared by all files","src/util/string_decryptor/mod.rs")])
p("C20","A data folder's files assemble into the tree the folder describes",
 "Opening a data folder's base file, in the flat layout or in the nested multi-part layout, yields one tree in which every archive appears under the base at the place its folder gives it, the parts of a multi-part archive are merged so that every stored entry is reachable, and every image content is right. Files that are not part of the data set are ignored, and a missing folder is an error.",
 ["inputs","configurations"],"all small folder layouts: archives present or absent, one to three parts, nested sub-folders, stray files, entries placed in any part",
 "No test opens a data folder.",
 ["src/util/resolver.rs","src/file.rs","src/node.rs"],
 [("layout detection","src/util/resolver.rs resolve_base / resolve_root_wz_file_dir"),("merge","src/util/resolver.rs")],
 ["tree after opening"])
p("C21","What was opened before never changes how an archive opens",
 "The result of opening an archive that a single release and version hash explain is the same whatever archives, of whatever releases and keys, and whether successfully or not, were opened earlier in the process. What is remembered between openings only saves time.",
 ["histories"],"all sequences up to a depth of opening archives from a set that covers every release, colliding header hashes and damaged files",
 "Tests open one archive per process state and never in different orders.",
 ["src/file.rs","src/util/profile.rs","src/util/string_decryptor/mod.rs"],
 [("remembered profiles","src/util/profile.rs PKG2_PROFILE_CACHE; src/file.rs parse_pkg2"),("global keys","src/util/string_decryptor/mod.rs GLOBAL_STRING_DECRYPTOR")],
 ["tree after each opening"],[("remembered profiles","process-wide list","src/util/profile.rs"),("global keys","process-wide keystreams","src/util/string_decryptor/mod.rs")])
p("C22","Version-hash search finds every hash that the header admits, and only those",
 "For every pair of header hashes, the search of each release's generator yields exactly the set of version hashes that satisfy that release's verification equation. For classic archives, the candidate versions are exactly those in range whose checksum matches the header value, or which the header value names directly, each with the hash the format defines.",
 ["inputs"],"header hash pairs from boundary and structured sets, against exhaustive enumeration of the full 32-bit hash space; all classic versions in range against all header values",
 "Tests check that produced hashes verify for one pair, not that none is missing.",
 ["src/util/version/pkg2.rs","src/util/version/pkg1.rs"],
 [("bit-by-bit search","src/util/version/pkg2.rs backtrack"),("full search","src/util/version/pkg2.rs brute_force_hash"),("classic candidates","src/util/version/pkg1.rs")],
 ["set of hashes produced"])
p("C23","Typed access returns the value exactly when the node has that kind",
 "For every node kind and every typed accessor, the accessor returns the stored value when the node is of that kind and nothing otherwise (the string accessor also answers for link nodes). Building an object from a value and asking for that value gives it back unchanged.",
 ["inputs"],"the full matrix of node kinds and accessors, with boundary values of each kind",
 "Tests check some accessors on some kinds, not the matrix.",
 ["src/node_cast.rs","src/object.rs","src/property/mod.rs","src/node_name.rs"],
 [("accessors","src/node_cast.rs"),("conversions","src/object.rs, src/property/mod.rs")],
 ["accessor result"])
p("C24","In the order-keeping build children are listed and walked in stored order",
 "When the crate is built with its feature indexmap, the children of every node are listed in the order in which they are stored in the image, directory or pack (names stored once), and a walk visits them in that order, also after releasing and parsing again. A resolved link keeps the place of the link, children added by hand stay in the order of adding, and children moved to another node come after those it already had, in the order they had. In every build, WzImage::resolve_children returns the top-level children in stored order.",
 ["inputs","histories","configurations"],"all images, archives and packs up to a size bound under several naming schemes, all permutations of a few sibling names in every kind of holder, wide lists, all small images with links, all small moves of children",
 "The suite runs in the default build, whose map has no order, and never looks at the order of children.",
 ["src/node.rs","src/lib.rs","src/directory.rs","src/wz_image.rs","src/util/parse_property.rs","src/util/node_util.rs","src/util/walk.rs","src/ms/file.rs"],
 [("children map","src/lib.rs WzMap; src/node.rs parse / add / transfer_childs"),("lists of children in stored order","src/util/parse_property.rs parse_property_list; src/directory.rs resolve_children; src/ms/file.rs parse_v1 / parse_v2"),("links put in place","src/util/node_util.rs resolve_uol"),("walk","src/util/walk.rs walk_node")],
 ["order of the children map's iteration, order of visits"],[("children map","ordered map of children","src/node.rs")])
p("C25","What is released or dropped is given back",
 "After any sequence of parsing, releasing, walking, looking up, exporting and moving, the only nodes alive are those that can be reached from the nodes the caller holds: a released image's nodes, and a dropped tree with its resolved links, are freed unless they are held, and a file stays open only while something held can read from it. A held node whose upper nodes are gone keeps its values and what is below it, and looking upwards from it ends without a panic. Opening, using and dropping the same file again and again does not use more and more memory, also when the file is damaged.",
 ["histories","inputs"],"all sequences of operations up to a depth on archives, packs and images, sound and damaged, all small images with links in every kind of holder, all pairs of property kinds, all small hand-made trees with moves, all truncations of samples",
 "Tests never look at what is still alive after releasing or dropping; a cycle of owners or a forgotten cache passes every functional test.",
 ["src/node.rs","src/util/node_util.rs","src/util/walk.rs","src/wz_image.rs","src/file.rs","src/directory.rs","src/ms/file.rs","src/ms/ms_image.rs"],
 [("weak parents","src/node.rs WzNode.parent"),("release","src/node.rs unparse; src/util/walk.rs walk_node"),("no cycle by links","src/util/node_util.rs resolve_uol / is_containing"),("moves","src/node.rs transfer_childs"),("shared readers","src/reader.rs WzReader")],
 ["weak references to every node and reader ever seen; bytes allocated after equal histories"],[("nodes alive","every node that was ever reachable and still upgrades","src/node.rs WzNodeArc")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
