#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parsing an image yields exactly the tree the bytes encode",
 "Parsing a well-formed image (from an .img file or an image entry of an archive) yields exactly the property tree its bytes encode: every property once, with its name, kind and value, under its container, in file order where order is offered, and with each parent link naming the containing node. This holds for every property kind, inline or offset-referenced names and strings, every nesting of containers, whatever the image's position in the archive; an extended property of unknown type becomes an empty placeholder and does not disturb its siblings.",
 ["inputs"],"every property tree (kinds null/i16/i32/i64/f32/f64/string/sub-property/canvas/convex/vector/sound/UOL/raw data/video/unknown, all nestings), every encoding choice (inline/offset strings, short/long ints, float forms, padding inside blocks), every image offset and string key",
 "The tests parse three fixture files and hand-made nodes; the space of trees, encodings and offsets is unbounded and canvases with children, convexes, raw data, video, unknown types and offset references inside nested blocks are not sampled.",
 ["src/util/parse_property.rs","src/wz_image.rs","src/reader.rs","src/node.rs"],
 [("recursive descent over property lists, seek to the declared end of each extended block","src/util/parse_property.rs"),("string blocks resolved relative to the image offset","src/reader.rs")],
 ["WzImage::resolve_children","WzNode::parse","children/parent of the nodes"],
 [("reader position","where the next property starts; must equal the end of the previous one","WzSliceReader::pos")])
p("C02","Direct access into an unparsed image agrees with parsing it",
 "Fetching one path straight out of an unparsed image gives the same node (name, kind, value, subtree) that parsing the whole image and navigating to that path gives, and reports 'not found' for exactly the paths the parsed image does not have. It needs no parse and leaves the image unparsed; a UOL fetched this way is the UOL value itself.",
 ["inputs"],"every image tree without UOL indirection on the path, every path (present, absent, ending early, descending through any kind of property), every image offset",
 "One fixture path is fetched by the tests; the skip logic has one arm per property kind and per container, which only particular combinations of preceding siblings and containers reach.",
 ["src/util/parse_property.rs","src/wz_image.rs","src/util/node_util.rs"],
 [("skip-scan over property lists","src/util/parse_property.rs get_node"),("choice between parsed tree and direct access","src/util/node_util.rs get_node_without_parse")],
 ["WzImage::at_path","util::get_node_without_parse"])
p("C03","Every string survives its encrypted encoding, for every key",
 "Any Unicode string put into an encrypted string value reads back exactly, for every key (none, known regional, custom) and every storage form (narrow, wide, second-generation directory name), and its raw form is what the format prescribes (rolling mask xor key stream). Length prefixes select the right form and length at every boundary (0, 1, 126, 127, 128, and the long forms), both inline and by offset.",
 ["inputs"],"all strings over Unicode including non-BMP characters and lengths around every prefix boundary, all keys, all storage forms",
 "Tests decode a handful of short ASCII/BMP strings with fixed keys; lengths at the prefix boundaries, surrogate pairs and narrow bytes above 0x7f are not reached.",
 ["src/property/string.rs","src/reader.rs","src/util/string_decryptor/mod.rs"],
 [("string encryption","src/property/string.rs encrypt_str"),("string decryption and length prefix","src/reader.rs")],
 ["WzString::from_str/get_string","Reader::read_wz_string*","WzString raw bytes"])
p("C04","The shared key stream gives one answer regardless of request order or threads",
 "Decryption with a key shared between readers depends only on the key and the byte's position in the string: whatever requests were made before, in whatever order and sizes, and however concurrent requests interleave, every request sees the same key stream, namely the AES-derived stream the key defines. The stream is never exposed half-extended, and concurrent users never deadlock.",
 ["schedules","histories"],"all histories of ensure/decrypt requests of all sizes (around the 16-byte block and 4096-byte batch boundaries) by any number of threads sharing one decryptor, all interleavings, all ivs",
 "Tests ask one decryptor once, single-threaded; the lazily grown state and its lock are exercised by neither histories nor schedules.",
 ["src/util/string_decryptor/ecb_decryptor.rs","src/util/string_decryptor/mod.rs","src/reader.rs"],
 [("batch extension of the stream","src/util/string_decryptor/ecb_decryptor.rs"),("read check then write-lock extension","src/reader.rs"),("global shared keys","src/util/string_decryptor/mod.rs")],
 ["Decryptor trait","WzString::get_string","concurrent readers of one WzReader"],
 [("keys","stream prefix produced so far, length a multiple of the block size","EcbDecryptor"),])
p("C05","Parse/unparse is idempotent, repeatable and atomic under failure",
 "Parsing a node that is parsed changes nothing and keeps its children's identities; unparsing removes the children and a later parse rebuilds an equal tree; nodes of kinds that cannot be (un)parsed are left alone. A parse that fails reports an error and leaves the node unparsed with the children it had before, so that a later parse, once the cause is gone, succeeds with the full tree.",
 ["histories","fault_sequences"],"all sequences of parse/unparse/add/navigate on file, directory, image and value nodes, with failures injected at any point of any parse",
 "Tests parse each node once in the good case; double parse, re-parse after unparse and retry after a failed parse are histories they never run.",
 ["src/node.rs","src/directory.rs","src/file.rs","src/wz_image.rs"],
 [("is_parsed flags set only after children were resolved","src/node.rs WzNode::parse/unparse")],
 ["WzNode::parse","WzNode::unparse","children","is_parsed"],
 [("is_parsed","node's children have been materialised","WzFile/WzDirectory/WzImage")])
p("C06","Concurrent parsing and reading never deadlock, tear or duplicate",
 "When several threads parse, force-parse along paths, read and walk overlapping parts of one tree, every thread finishes, each node's children are materialised exactly once (all threads obtain the same child nodes), no thread observes a partially filled node, and every result equals that of some sequential order.",
 ["schedules"],"all interleavings of parse_node, at_path_parsed, at_path, get_full_path, string decoding and link resolution by several threads on a shared tree",
 "No test starts a thread on a shared tree; lock-order and visibility errors depend on the schedule.",
 ["src/node.rs","src/util/node_util.rs","src/wz_image.rs","src/directory.rs","src/reader.rs"],
 [("node write lock held during parse; parents locked before children","src/node.rs"),("try_read/try_write while the image being parsed is locked","src/util/node_util.rs resolve_uol")],
 ["util::parse_node","WzNode::at_path_parsed","Arc identities of children"])
p("C07","Paths and navigation name the same tree",
 "Every navigation entry point (child lookup, path lookup, parsed path lookup, relative lookup with '..', ancestor search, image/base lookup) returns exactly the node the names denote in the tree, or nothing when there is none; a node's full path and its paths from the root and from its image are the slash-joined names on the chain of parents, so looking such a path up gives the node back.",
 ["inputs","histories"],"all trees, all nodes in them, all paths including empty components, '..' prefixes, infixes and over-climbing, before and after tree edits",
 "Doc tests look at two- and three-node trees with present paths only.",
 ["src/node.rs","src/util/node_util.rs"],
 [("child maps and weak parent links","src/node.rs")],
 ["WzNode::at/at_path/at_relative/at_path_relative/at_path_parsed/filter_parent/get_*","util::get_image_node_from_path"])
p("C08","UOL links resolve to their target node",
 "After an image is parsed, a UOL property whose path (relative to its own parent, '..' going up) leads to a node inside the same image stands for that very node: looking the UOL's name up in its parent yields the target, with the target's own name and parent unchanged. A UOL whose path leads nowhere stays a readable UOL value, and resolving never changes any other entry, never hangs and never makes a node its own descendant.",
 ["inputs","histories"],"all image trees with UOLs at any depth to targets at any relative position (sibling, upward, top level, own container, other UOLs, missing), including several UOLs per image",
 "One hand-made tree and one upward UOL are tested, outside of parsing; UOLs at the image's top level while it is locked for parsing use a separate branch.",
 ["src/util/node_util.rs","src/node.rs","src/util/parse_property.rs"],
 [("UOL nodes collected during parse and resolved with the locked image passed in","src/node.rs, src/util/node_util.rs resolve_uol")],
 ["WzNode::parse","util::resolve_uol","util::get_resolved_uol_path"])
p("C09","Inlinks and outlinks reach the image they name, and always return",
 "A canvas's _inlink is resolved from its own image and its _outlink from the base archive, parsing what is in between when asked; the picture obtained through a link is the picture of the target and, without a link or with one whose target is missing, its own. Resolution from any context, including a walk callback or another thread's concurrent resolution, returns (a picture or an error) and does not hang; links to something that is no picture and links in a circle give an error.",
 ["inputs","schedules","histories"],"all placements of linking canvas and target (same image, other image, other directory, unparsed, missing, chains, cycles), called directly or from within a walk",
 "Tests resolve one link of each kind on a hand-made, fully parsed tree.",
 ["src/util/node_util.rs","src/property/png.rs","src/node.rs","src/util/walk.rs"],
 [("link resolution","src/util/node_util.rs"),("image extraction follows links","src/property/png.rs get_image")],
 ["property::get_image","util::resolve_inlink","util::resolve_outlink"])
p("C10","Archive version and header are detected right, or refused",
 "Opening an archive without a version finds the patch version it was written with (or one with the same check value where the content does not tell them apart), reading it with that explicit version works, a wrong explicit version or key is refused instead of yielding a wrong tree, and the header-less 64-bit form works for the versions it is used with. Bytes that are no archive are refused with an error.",
 ["inputs","configurations"],"all patch versions 1..2000 with a version header, 770..780 without, all header sizes, both explicit and detected, right and wrong keys and versions",
 "One fixture archive with one version exists; the version search space and wrong-version cases are not sampled.",
 ["src/file.rs","src/util/version/pkg1.rs","src/header.rs","src/util/version/mod.rs"],
 [("hash enumeration and verification by decoding offsets","src/file.rs, src/util/version/pkg1.rs")],
 ["WzFile::from_file + parse","wz_file_meta.patch_version/hash"])
p("C11","An archive's directory tree is read exactly",
 "Parsing an archive and its directories yields exactly the directories and images it lists, at every depth, with their names, sizes and data offsets (including names stored by reference), and each image then parses to the content stored for it; directories are read lazily and in any order with the same result.",
 ["inputs","histories"],"all directory trees, entry kinds (inline, by reference, directory, image), data start positions, versions, keys and orders of parsing",
 "A single fixture archive with a few entries is read.",
 ["src/directory.rs","src/reader.rs","src/util/offset.rs","src/file.rs"],
 [("offset decryption","src/util/offset.rs"),("entry list and deferred size/offset records","src/directory.rs")],
 ["WzNode::parse on File and Directory nodes","WzDirectory/WzImage offset and block_size"])
p("C12","String keys of images and archives are detected right, or refused",
 "For a well-formed image of properties or archive written with a regional key, detection without hints picks a key that decodes it correctly (for an archive: the first of none, GMS, EMS under which its first name is ASCII text); an explicit right key is accepted, a wrong one is replaced by the right one or refused. Detection never fails or crashes on an input only because it is short or odd: it then reports an error.",
 ["inputs","configurations"],"the three regional keys and a custom one, images of every header type, archives whose first entry is of any kind, explicit and guessed keys, truncated and empty inputs",
 "Two fixtures with one key each.",
 ["src/util/version/mod.rs","src/wz_image.rs","src/file.rs","src/util/string_decryptor/mod.rs"],
 [("guess by decoding the first name","src/util/version/mod.rs")],
 ["WzImage::from_file","WzFile::from_file","WzNode::from_img_file(_with_iv)"])
p("C13","Second-generation archives: version generators are sound and complete",
 "For every header (two stored hashes) that a key version can produce, the generator for that profile enumerates that key, every key it enumerates reproduces the stored value, and archives of each known profile open and list exactly their content whether the profile is given by detection, by an earlier opened archive's cache, or by hint.",
 ["inputs","histories"],"all 32-bit stored hash pairs, all profiles, all orders of opening archives of different profiles in one process",
 "Tests sample one recorded pair per generator; completeness over the key space is a universal claim and the cache makes results depend on history.",
 ["src/util/version/pkg2.rs","src/util/profile.rs","src/file.rs","src/directory.rs","src/util/string_decryptor/pkg2_decryptor.rs"],
 [("hash inversion by digit-wise backtracking","src/util/version/pkg2.rs"),("profile table and cache","src/util/profile.rs")],
 ["util::version generators","WzFile::from_file + parse"])
p("C14","MS packs list and decrypt exactly the images they contain",
 "Opening an .ms pack of either generation yields exactly its entries with their names, and each entry's decrypted bytes, parsed, give exactly the stored image; this does not depend on the entry's size, its position, or how many bytes any intermediate read returns. A pack whose name or salt does not match is refused.",
 ["inputs"],"both cipher generations, all entry counts, entry sizes around every cipher block and 1024-byte boundary, all file names/salts, all read sizes",
 "The tests check cipher vectors only; no .ms file exists in the tests.",
 ["src/ms/file.rs","src/ms/header.rs","src/ms/ms_image.rs","src/ms/snow2_reader.rs","src/ms/chacha20_reader.rs","src/ms/snow2_decryptor.rs"],
 [("buffered block decryption","src/ms/snow2_reader.rs, src/ms/chacha20_reader.rs"),("key derivation","src/ms/header.rs, src/ms/file.rs, src/ms/ms_image.rs")],
 ["MsFile::from_file + parse","MsImage -> WzImage"])
p("C15","Canvas pixels decode exactly, for every format and size",
 "Decoding a canvas yields an image of its declared width and height whose every pixel has the colour the stored data prescribes for its format and position, for every pixel format, every size (also not a multiple of the block size), compressed plainly or in encrypted chunks. Data that is too short or not decompressible gives an error, not a crash or garbage of another size.",
 ["inputs"],"all supported formats, all sizes around the 4x4 block and 16-pixel tile boundaries, all pixel values, both storage forms, all truncations",
 "Tests decode images of the fixture only, with sizes that are multiples of the block size.",
 ["src/property/png.rs","src/util/color.rs"],
 [("per-format conversion","src/property/png.rs, src/util/color.rs"),("chunked decryption","src/property/png.rs")],
 ["WzPng::extract_png","property::get_image"])
p("C16","A tree converted to JSON comes back as the same tree",
 "The full JSON form of any materialised tree can be produced, and reading it back gives a tree with the same names, kinds, values and nesting. Deserialising plus restoring parent links makes navigation work as in the original.",
 ["inputs"],"all trees over the value kinds JSON can carry (null, integers, floats, strings, vectors, UOLs, sub-properties, convexes, canvas and sound metadata), at any depth",
 "Tests serialise two hand-made trees of integers and strings.",
 ["src/node.rs","src/object.rs","src/property/mod.rs"],
 [("tagged enum serialisation with untagged fallbacks","src/object.rs, src/property/mod.rs")],
 ["WzNode::to_json","serde_json::from_value::<WzNode>"])
p("C17","The simple JSON form mirrors names and values",
 "The simple JSON form of any tree is produced without failing and mirrors it: a leaf is its value, a node with children is an object with one entry per child under the child's name, canvases and sounds carry their metadata plus their children.",
 ["inputs"],"all trees over all node kinds and all values, including non-finite floats and non-leaf values",
 "One hand-made tree of integers is tested.",
 ["src/node.rs","src/property/mod.rs"],
 [("recursive conversion","src/node.rs to_simple_json, src/property/mod.rs")],
 ["WzNode::to_simple_json"])
p("C18","Walking visits every node once and releases what it parsed",
 "A walk calls its callback exactly once for every entry (child slot) reachable through children at the time, parents before children, parsing nodes first when asked; after a forcing walk every image it passed is unparsed again while files and directories stay parsed. The callback may read, navigate, and extract images and strings; nodes that fail to parse are still visited and the walk goes on.",
 ["inputs","histories","fault_sequences"],"all trees, parsed or not, with unparsable images anywhere, all read-side operations in the callback",
 "One tree is walked without parsing and only membership (not completeness) of the visited set is asserted.",
 ["src/util/walk.rs","src/node.rs"],
 [("recursive walk","src/util/walk.rs")],
 ["util::walk_node"])
p("C19","Merging one node's children into another loses and duplicates nothing",
 "Transferring the children of a node to a node of another subtree moves every child to the target: where the target has no child of that name, the very node moves and its parent becomes the target; where it has one, the two are merged recursively and the target's node stays. Afterwards the source is empty and the target has exactly the union of the paths.",
 ["inputs","histories"],"all pairs of trees with arbitrary name overlap at any depth, all sequences of transfers",
 "No test calls it.",
 ["src/node.rs"],
 [("drain and merge","src/node.rs transfer_childs")],
 ["WzNode::transfer_childs","paths and parents afterwards"])
p("C20","A data folder resolves to the tree its archives describe",
 "Resolving a base archive, in either folder layout, attaches under each name listed in it the content of that name's archive, including every numbered part file and nested sub-folders, each with parent links up to the base; names not listed are ignored, and a listed folder or name without an archive keeps its plain directory entry. The result does not depend on directory enumeration order and a missing file never crashes it.",
 ["configurations"],"all folder layouts: flat or per-name folders, any subset of archives present, numbered parts, nested folders, unrelated files, explicit or detected versions",
 "No test covers a folder layout.",
 ["src/util/resolver.rs"],
 [("listing-driven attach and merge of parts","src/util/resolver.rs")],
 ["util::resolver::resolve_base","resolve_root_wz_file_dir"])
p("C21","Sound, raw and video payloads come out byte-exact",
 "The bytes extracted from a sound, raw data or video property are exactly the bytes stored for it, and the reported duration, size and sound type are those its header states; an extracted PCM sound is a well-formed WAVE file around the same samples.",
 ["inputs"],"all payload sizes and contents, all header variants (of every length, wave, binary, mp3), any position in an image",
 "Only fixture-independent header detection is unit tested.",
 ["src/property/sound.rs","src/property/raw_data.rs","src/property/video.rs","src/util/parse_property.rs"],
 [("offset/size bookkeeping","src/util/parse_property.rs, src/property/sound.rs")],
 ["WzSound::get_buffer/extract","WzRawData/WzVideo buffers"])
p("C22","Script and text images come out exactly",
 "A Lua image's extracted script, a .txt image's text and a '#Property' text image's body are exactly what is stored, for every length and every key under which only the right decoding is valid text; an image whose header is none of the known forms, or whose name does not fit its header, or whose text is not all there, is refused with an error.",
 ["inputs"],"all three special image forms, all lengths around the integer and key-batch boundaries, all keys, any image offset, all header bytes",
 "A short Lua sample is unit tested.",
 ["src/wz_image.rs","src/property/lua.rs","src/property/raw_data.rs"],
 [("header type dispatch","src/wz_image.rs"),("lua decryption","src/property/lua.rs")],
 ["WzImage::resolve_children","WzLua::extract_lua","WzRawData buffer"])
p("C23","Truncated or corrupted input gives an error, never a crash or a hang",
 "Opening, parsing or extracting from any prefix or corruption of valid data terminates without crashing: it returns an error, or a tree that consists of properties read from the bytes that are there. Once an archive or pack is open, damage inside one image does not prevent reading the others.",
 ["inputs","crash_points"],"all truncation points and single-byte corruptions of valid images, archives, packs and payloads; empty files",
 "No test feeds malformed data beyond a few wrong headers.",
 ["src/reader.rs","src/util/parse_property.rs","src/directory.rs","src/file.rs","src/property/png.rs","src/util/version/mod.rs"],
 [("bounds-checked reads","src/reader.rs")],
 ["from_file/parse/at_path/get_image returning Err"])
p("C24","Primitive reads decode the value and advance past exactly its bytes",
 "Every primitive read (fixed-size integers, floats, compressed 32- and 64-bit integers, strings of each form, string blocks, offsets) returns the value its bytes encode and leaves the position just after them, at any position; offset references leave the position after the reference; positioned reads do not move it.",
 ["inputs","histories"],"all values at and around each encoding boundary, all positions, all sequences of reads, seeks and skips",
 "Each primitive is tested on one or two values.",
 ["src/reader.rs"],
 [("position-tracking slice reader","src/reader.rs")],
 ["WzSliceReader methods and pos"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print("too many sentences",x["id"],n)
