#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
L = "ssbh_lib/src/"; F = L + "formats/"; D = "ssbh_data/src/"

p("C01", "Writing any low-level file value and reading it back gives the same value",
  "For every value of every supported file type and version (all ten container formats plus the adjacency and extended-mesh formats), writing it and reading the bytes back yields an equal value of the same type and version. Writing that reread value again yields byte-identical output. This includes null pointers, empty strings and arrays, nested arrays, every enum variant and every float bit pattern.",
  ["inputs"], "all in-memory values of the file types, of any shape and size",
  "Unit tests cover a few hand-written values per primitive and no format is round-tripped as a whole; the guarantee is over all values and over how nested pointers interleave.",
  [L+"lib.rs", L+"arrays.rs", L+"strings.rs", L+"enums.rs", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs", F+"*.rs"],
  [("relative/absolute pointer writing", L+"lib.rs"), ("array and buffer encoding", L+"arrays.rs"), ("tagged unions", L+"enums.rs"), ("derived size and field writing", "ssbh_write_derive/src/lib.rs")],
  observe="public read/write methods on in-memory buffers")
p("C02", "Written files follow the documented on-disk layout byte for byte",
  "Every written file has the documented header (signature, header size, type magic, version), little-endian fields in declared order with fixed numeric codes for every enumeration, and data placed after the structure that points at it with the documented alignment, offset base and zero padding. Nothing is written twice, no two regions overlap, every non-null offset points past the structure holding it and every gap is zero and smaller than the alignment. Conversely, reading a file laid out that way recovers every field with its documented meaning.",
  ["inputs"], "all values of all supported container types and versions",
  "Round-trip tests are blind to symmetric mistakes and unit tests pin only tiny fragments; compatibility with the game needs the absolute encoding of every field of every format.",
  [L+"lib.rs", L+"arrays.rs", L+"enums.rs", L+"strings.rs", F+"*.rs", "ssbh_offsets.md"],
  [("header and magics", L+"lib.rs"), ("numeric reprs", F+"matl.rs"), ("alignment and padding attributes", "ssbh_write_derive/src/lib.rs")],
  observe="bytes and write calls reaching the output stream")
p("C03", "Reading arbitrary bytes as any low-level file type never panics or hangs",
  "Reading any byte sequence as any file type (typed readers, the generic container reader and the non-container formats) always terminates with either a value or an error. It never panics, aborts, overflows the stack or loops, whatever offsets, counts, tags or truncations the bytes contain. Any value that is successfully read can also be written again without panicking.",
  ["inputs"], "all finite byte sequences, in particular truncated, bit-flipped and offset-corrupted versions of valid files",
  "The tests hold a few hand-made overflow cases; the space of malformed files is unbounded.",
  [L+"lib.rs", L+"arrays.rs", L+"enums.rs", L+"strings.rs", F+"*.rs"],
  [("checked offset arithmetic", L+"lib.rs"), ("bounded initial capacity", L+"arrays.rs")],
  observe="result of the readers; process status; reader step count")
p("C04", "High-level readers report malformed files as errors and never panic",
  "Converting any successfully read low-level value into its high-level data type, and reading any byte sequence directly as a high-level type, always returns a value or an error. It never panics, aborts or loops forever, however inconsistent the counts, offsets, indices, flags or compressed buffers inside the file are. Data that was successfully obtained this way can be converted back or rejected with an error, again without a panic.",
  ["inputs"], "all byte sequences and all well-formed low-level values with arbitrary field contents",
  "Tests exercise malformed content only for a few attribute buffers; field-level inconsistencies are combinatorial.",
  [D+"anim_data.rs", D+"anim_data/*.rs", D+"mesh_data.rs", D+"mesh_data/*.rs", D+"matl_data.rs", D+"skel_data.rs", D+"adj_data.rs", D+"meshex_data.rs", D+"hlpb_data.rs", D+"modl_data.rs"],
  [("track buffer decoding", D+"anim_data/buffers.rs"), ("attribute buffer bounds", D+"mesh_data/mesh_attributes.rs"), ("index to offset checks", D+"adj_data.rs")],
  observe="results of reads and conversions; process status")
p("C05", "Reader memory and work follow the bytes present, not the counts claimed",
  "While reading any file, the memory in use stays proportional to the bytes actually delivered by the stream so far, plus a fixed constant, however large the element counts, lengths and offsets stored in the file are. A count, length or frame number that the file's data does not back is an error (or yields only what is there), not a huge reservation. The number of stream operations is likewise proportional to the data actually decoded.",
  ["inputs"], "all byte sequences, especially small files with huge counts",
  "One test covers a single array count; each count, length and nested pointer is another way in.",
  [L+"arrays.rs", L+"lib.rs", F+"meshex.rs", F+"adj.rs", D+"anim_data/buffers.rs", D+"shdr_data.rs"],
  [("initial capacity limits", L+"arrays.rs"), ("frame counts", D+"anim_data/buffers.rs"), ("string lengths", D+"shdr_data.rs")],
  observe="allocator and reader operations")
p("C06", "Any readable file normalises to a stable, equivalent file when rewritten",
  "If any byte sequence can be read as a file type, then writing the value and reading it again gives an equal value, and writing once more gives identical bytes. This holds for unusual layouts too: shared, overlapping, unaligned or reordered data, trailing bytes and non-zero padding. Reading the same bytes twice always gives equal values.",
  ["inputs"], "all readable byte sequences, including ones no writer of this library would emit",
  "Tests only reread what the library itself wrote or inspect small literals.",
  [L+"lib.rs", L+"arrays.rs", L+"strings.rs", L+"enums.rs"],
  [("pointer reading restores position", L+"lib.rs"), ("array reading", L+"arrays.rs")],
  observe="public read/write methods")
p("C07", "Type magic and version select exactly the right reader, on every API path",
  "A file is only ever interpreted as the type given by its magic and the version given by its version fields: a typed reader accepts exactly its own type, any unsupported magic or version is an error, and files of another type are reported as such. All ways to read or write the same content (generic container, typed methods, from path or stream, conversion to and from the container) agree on the value and produce the same bytes. Every value reports the version it is written with.",
  ["inputs", "configurations"], "all (magic, major, minor) combinations and all API paths for every type",
  "Tests check single combinations for one type.",
  [L+"lib.rs", F+"*.rs", D+"lib.rs"],
  [("magic dispatch", L+"lib.rs"), ("version asserts", F+"*.rs"), ("trait implementations", D+"lib.rs")],
  observe="public read/write methods")
p("C08", "Low-level files survive conversion to JSON and back byte for byte",
  "Converting any readable container file to JSON with the low-level JSON tool or its data model and back reproduces exactly the file the library would write for it. Edited or foreign JSON either fails with an error or produces a file that reads back to the same JSON. (For text that is valid UTF-8 and finite numbers; raw buffers may hold any bytes.)",
  ["inputs"], "all values with UTF-8 strings and finite floats; arbitrary buffers",
  "No test runs the tool or round-trips any format through JSON.",
  ["ssbh_lib_json/src/main.rs", L+"strings.rs", L+"arrays.rs", L+"lib.rs", F+"*.rs"],
  [("string (de)serialisation", L+"strings.rs"), ("hex buffers", L+"arrays.rs"), ("tool conversions", "ssbh_lib_json/src/main.rs")],
  observe="serialised JSON and tool outputs")
p("C09", "High-level data survives conversion to JSON and back",
  "Serialising any high-level data value (mesh, skeleton, model, material, animation, helper bones, adjacency, extended mesh) to JSON and parsing it again yields an equal value. The high-level JSON tool, run on a file and then on its own output, produces the file the library would write for that data. Nothing is renamed, dropped, reordered or rounded on the way.",
  ["inputs"], "all high-level values with finite floats",
  "No test covers JSON conversion of any data type or the tool.",
  ["ssbh_data_json/src/main.rs", D+"*.rs"],
  [("serde derives", D+"*.rs"), ("tool conversions", "ssbh_data_json/src/main.rs")],
  observe="serialised JSON and tool outputs")
p("C10", "Animation data round-trips: structure, order and lossless tracks are exact",
  "Writing any supported animation and reading it back preserves the version, final frame, the order and names of groups, nodes and tracks, per-track flags, and the number of frames of every uncompressed or varying track. Values of uncompressed, boolean and pattern-index tracks are exactly preserved, regardless of how many tracks share the buffer. Each track's bytes are the ones its own offset and size describe, without overlap.",
  ["inputs"], "all animations: any mix of groups, nodes, tracks, value types, lengths and both writable versions",
  "Tests use single tracks with a couple of frames.",
  [D+"anim_data.rs", D+"anim_data/buffers.rs", D+"anim_data/compression.rs"],
  [("track writing", D+"anim_data/buffers.rs"), ("group conversion", D+"anim_data.rs")],
  observe="written container value and reread data")
p("C11", "Compressed animation tracks stay within the error their bit depth allows",
  "When an animation is written with lossy compression, each decoded float, vector, UV or transform component differs from the original by no more than the quantisation step of the range stored for it, and the extreme values and constant components are reproduced (up to float rounding). Rotations decode to a unit quaternion representing the original rotation within that tolerance, including the sign of the component that is not stored. Compression never changes the number of frames of a varying track or its flags.",
  ["inputs"], "all sequences of finite values per track type, any length and range; unit quaternions",
  "Tests check a few hand-picked frames for equality.",
  [D+"anim_data/compression.rs", D+"anim_data/buffers.rs", D+"anim_data/bitutils.rs"],
  [("quantisation", D+"anim_data/compression.rs"), ("bit packing", D+"anim_data/bitutils.rs"), ("rotation w reconstruction", D+"anim_data/compression.rs")],
  observe="written buffers and decoded values")
p("C12", "Animation buffers with any bit widths, ranges and defaults decode correctly",
  "For every well-formed track buffer (direct, constant or compressed with any per-component bit counts, ranges and default values) the decoder produces the values the format specification assigns: linear interpolation over the stored range, defaults for components with no bits, uniform versus per-axis scale, and the fourth rotation component reconstructed with its stored sign. Boolean and index tracks decode to the exact stored values. Versions 2.0 and 2.1 decode identically.",
  ["inputs"], "all combinations of component bit widths, ranges, defaults, flags and frame counts",
  "Tests decode a handful of literal buffers captured from game files.",
  [D+"anim_data/buffers.rs", D+"anim_data/compression.rs", D+"anim_data/bitutils.rs"],
  [("bit reader", D+"anim_data/bitutils.rs"), ("decompression", D+"anim_data/compression.rs"), ("scale and flags", D+"anim_data/buffers.rs")],
  observe="decoded data compared with an independent decoder")
p("C13", "Mesh data round-trips for every version within the stored precision",
  "Writing mesh data as any supported version and reading it back preserves every object's name, subindex, parent bone, flags, sort bias, vertex indices, attribute order, names (where the version stores them) and bone influences. Positions and other full-precision attributes are exact, while half-float and byte attributes are within the rounding of that format. Objects never exchange or corrupt each other's vertex data, whatever their number, sizes and attribute mix.",
  ["inputs", "configurations"], "all valid mesh data values and versions 1.8, 1.9 and 1.10",
  "Tests check one or two attributes on one tiny object per version.",
  [D+"mesh_data.rs", D+"mesh_data/mesh_attributes.rs", D+"mesh_data/vector_data.rs"],
  [("attribute buffer layout", D+"mesh_data/mesh_attributes.rs"), ("vector encodings", D+"mesh_data/vector_data.rs"), ("rigging", D+"mesh_data.rs")],
  observe="public conversions")
p("C14", "Generated mesh files are internally consistent",
  "In every mesh file produced from mesh data, each object's offsets, strides, counts, index type and attribute descriptors address only data inside the written buffers, do not overlap another object's data, and decode with an independent reader to the vertices and indices that were supplied. Indices are 16-bit exactly when all of them fit. Rigging groups match objects one to one in sorted order with correct skinning flags, influence counts and weights.",
  ["inputs"], "all valid mesh data values and versions",
  "Tests compare a few layouts as literals; consistency is over all object combinations.",
  [D+"mesh_data.rs", D+"mesh_data/mesh_attributes.rs"],
  [("buffer offsets", D+"mesh_data/mesh_attributes.rs"), ("rigging groups", D+"mesh_data.rs")],
  observe="written container value parsed independently")
p("C15", "Mesh bounding volumes enclose the geometry they describe",
  "For every mesh object and for the whole mesh, the stored bounding sphere, axis-aligned box and oriented box contain every vertex position (up to floating-point rounding). The axis-aligned box is tight. The extended-mesh file built from the same objects contains matching enclosing spheres.",
  ["inputs"], "all finite position sets, including empty, single, collinear and huge ones",
  "Tests check one trivial object.",
  [D+"mesh_data.rs", D+"meshex_data.rs"],
  [("bounding info", D+"mesh_data.rs"), ("group spheres", D+"meshex_data.rs")],
  observe="written container values")
p("C16", "Material data round-trips exactly, including sampler and render states",
  "Writing any material data and reading it back preserves every material's label, shader and all parameters of every kind with their ids and exact values, in order within each kind. Sampler filtering and anisotropy, blend and rasteriser states map to the documented on-disk codes and back without loss. Older-version material files read into the same model.",
  ["inputs"], "all material data values; all parameter ids and state values",
  "Tests convert one literal entry.",
  [D+"matl_data.rs", F+"matl.rs"],
  [("param grouping", D+"matl_data.rs"), ("state mapping", D+"matl_data.rs")],
  observe="public conversions and the written container value")
p("C17", "Skeleton data round-trips and its matrices are mutually consistent",
  "Writing any skeleton and reading it back preserves every bone's name, transform, parent and billboard type in order. The stored world matrix of each bone equals the product of its ancestors' local transforms, and the stored inverses are inverses of their counterparts (within floating-point tolerance). Cyclic or invalid parents give an error rather than a hang, and the relative-transform helper inverts the world-transform computation.",
  ["inputs"], "all forests of bones in any order, with invertible transforms; all parent assignments",
  "Tests use two or three bones in order.",
  [D+"skel_data.rs"],
  [("world transform accumulation", D+"skel_data.rs"), ("cycle detection", D+"skel_data.rs"), ("parent index mapping", D+"skel_data.rs")],
  observe="public conversions and transform helpers")
p("C18", "Model and helper-bone data round-trip exactly",
  "Writing any model assignment list or helper-bone constraint list and reading it back yields an equal value: every name, optional file name, index, axis, quaternion and range is preserved in order. The derived constraint index and type tables enumerate all aim and orient constraints consistently. Missing optional file names stay missing.",
  ["inputs"], "all model and helper-bone data values",
  "Tests convert one literal each.",
  [D+"modl_data.rs", D+"hlpb_data.rs"],
  [("modl conversion", D+"modl_data.rs"), ("constraint tables", D+"hlpb_data.rs")],
  observe="public conversions")
p("C19", "Adjacency and extended-mesh data are computed and round-tripped correctly",
  "Adjacency lists computed for a mesh contain, for each vertex, exactly the other two vertices of each face touching it or a vertex at the same position, in face order, cut or padded to the fixed length, and adjacency files round-trip for any entry sizes. Extended-mesh groups are built from consecutive objects of the same name with the documented tag stripping, entries refer to the right group, and the data round-trips including flags. Entry and group numbering always matches the mesh's object order.",
  ["inputs"], "all triangle lists with valid indices and any coincident vertices; all object name sequences",
  "Tests use a single triangle and a few names.",
  [D+"adj_data.rs", D+"meshex_data.rs", F+"adj.rs", F+"meshex.rs"],
  [("triangle adjacency", D+"adj_data.rs"), ("group building", D+"meshex_data.rs"), ("custom writers", F+"meshex.rs")],
  observe="public constructors and conversions")
p("C20", "Data that cannot be represented is rejected, never silently corrupted",
  "Converting data the target version cannot hold returns an error: unsupported versions, mismatched attribute lengths, faces that are not triangles, indices out of range, weights whose vertex index exceeds the format's limit, duplicate objects, mixed or unsupported track types, cyclic parents. No file is produced in that case. Valid data is never rejected.",
  ["inputs", "configurations"], "all high-level values, valid and invalid, and all version numbers",
  "Tests trigger each error with a single example.",
  [D+"mesh_data.rs", D+"mesh_data/mesh_attributes.rs", D+"anim_data.rs", D+"anim_data/buffers.rs", D+"matl_data.rs", D+"skel_data.rs"],
  [("validation", D+"mesh_data.rs"), ("version dispatch", D+"anim_data.rs")],
  observe="conversion results")
p("C21", "I/O errors surface as errors and never destroy an existing file",
  "If the underlying stream fails at any read, write, seek or flush, the operation returns that failure as an error: it never panics, reports success, or returns a value built from partial data, and short reads or writes do not change the result. Output is independent of how the stream splits writes. Saving to a path whose data cannot be serialised leaves an already existing file untouched.",
  ["fault_sequences", "crash_points", "inputs"], "a fault at every operation index, for every format, for reads and writes",
  "Tests never inject a failing or short-reading stream.",
  [L+"lib.rs", L+"arrays.rs", D+"lib.rs", F+"meshex.rs", F+"adj.rs"],
  [("buffered file writing", L+"lib.rs"), ("error propagation", L+"arrays.rs")],
  observe="results under fault-injecting streams; file contents afterwards")
p("C22", "Reading and writing are deterministic and leave their input unchanged",
  "The same input always gives the same output: repeated conversions in one process, in separate processes and on many threads at once produce identical bytes and identical values in identical order. Reading or writing never changes the value being written. No result depends on hash seeds, allocation addresses, environment or earlier calls.",
  ["schedules", "histories", "inputs"], "all formats and conversions; repeated, interleaved, concurrent and cross-process execution",
  "Tests run each conversion once in one process.",
  [D+"anim_data.rs", D+"mesh_data.rs", D+"matl_data.rs", L+"lib.rs"],
  [("group ordering", D+"anim_data.rs"), ("attribute ordering", D+"mesh_data.rs")],
  observe="outputs of repeated and concurrent runs")
p("C23", "Derived writers measure, align and order fields exactly as declared",
  "For any structure, tuple structure or tagged union using the writer derive with its size, alignment, padding, numeric representation and magic options, the number of inline bytes written equals the reported size plus declared padding, fields appear in declaration order, and pointed-to data is placed at or after the end of the structure with the declared alignment. The data pointer only moves forward and always covers what was written. Derived output depends only on the value.",
  ["programs", "inputs"], "all structure shapes over the supported options, nested to any depth",
  "Tests cover each option alone on one structure.",
  ["ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"],
  [("derive expansion", "ssbh_write_derive/src/lib.rs"), ("primitive writers", "ssbh_write/src/lib.rs")],
  observe="bytes and data pointer after each derived write")
p("C24", "No memory error or undefined behaviour on any input",
  "Reading, converting, transforming and writing any data performs no out-of-bounds access, use of uninitialised or freed memory, data race, arithmetic overflow or other undefined behaviour. This holds on malformed input and under concurrent use of independent values. Memory obtained while processing a file is released afterwards.",
  ["inputs", "schedules"], "all inputs to all public entry points, concurrently on several threads",
  "Tests run without sanitizers, on friendly inputs, in one thread each.",
  [L+"*.rs", D+"*.rs", "ssbh_write/src/lib.rs"],
  [("buffer slicing", D+"mesh_data/mesh_attributes.rs"), ("bit access", D+"anim_data/bitutils.rs"), ("array reading", L+"arrays.rs")],
  observe="sanitizer and interpreter reports; allocator balance")
p("C25", "Command line tools convert every supported file and pick the right outputs",
  "The JSON tools detect the file type from the content or extension, write to the requested path or to the documented default name next to the input, restore the documented extension on the way back, and report failures without writing a bogus output. The batch test tool reports every file that fails to round-trip and no file that does. No invocation crashes on any file content or name.",
  ["inputs", "configurations"], "all supported types, argument forms, file names and malformed files",
  "The tools have no tests at all.",
  ["ssbh_lib_json/src/main.rs", "ssbh_data_json/src/main.rs", "ssbh_test/src/main.rs", "README.md"],
  [("extension mapping", "ssbh_lib_json/src/main.rs"), ("data tool dispatch", "ssbh_data_json/src/main.rs"), ("comparison", "ssbh_test/src/main.rs")],
  observe="tool exit status, stdout and files")
p("C26", "Shader metadata is extracted exactly and robustly",
  "For every shader file whose binaries follow the documented layout, the extracted metadata (names, stage, buffers, uniforms, inputs, outputs with their types, sizes, offsets, locations and counts) is exactly what the binary stores, in order, for any number of entries and any strings. Malformed or truncated shader binaries give an error. They never cause a panic or an allocation out of proportion to the file.",
  ["inputs"], "all shader binaries, well-formed and malformed",
  "There is a single layout test; the reader has no malformed-input test.",
  [D+"shdr_data.rs", F+"shdr.rs"],
  [("metadata parsing", D+"shdr_data.rs")],
  observe="public readers compared with an independent encoder")
p("C27", "Geometry and vector helpers compute what they document, for any input",
  "The mesh transform, normal and tangent helpers and the vector and matrix conversions compute the documented mathematical result within floating-point tolerance, keep the number and order of elements and the vector kind, and leave what they should not touch unchanged. Inputs they cannot process give an error instead of a wrong result or a panic. Smooth normals and tangents are unit length wherever they are defined.",
  ["inputs"], "all attribute data with valid indices; any transform matrix",
  "Tests use one triangle or one vector.",
  [D+"mesh_data.rs", D+"mesh_data/vector_data.rs", L+"vectors.rs"],
  [("transforms", D+"mesh_data/vector_data.rs"), ("normals and tangents", D+"mesh_data/vector_data.rs"), ("conversions", L+"vectors.rs")],
  observe="public helper functions compared with double-precision references")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
