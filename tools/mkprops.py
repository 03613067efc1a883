#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Triangle index arrays survive a save and load exactly",
 "For every mesh, saving it and loading the file back yields vertex, normal, uv and tangent index arrays with exactly the same length, order and values as the ones saved. This holds whatever the values are (any 32-bit index, any bit width), however long the arrays are, and whether or not some of the arrays are equal to each other.",
 ["inputs"],"all meshes: every combination of present/absent/equal/different index arrays, every value pattern (including those that make the writer split one array into several segments or share one array between attributes)",
 "The tests round-trip one mesh (Suzanne) whose four arrays are all different and one 0..999 ramp; the sharing, splitting, base-subtraction and 32-bit paths are never reached with values that would expose a loss.",
 ["src/tmf.rs","src/tmf_exporter.rs","src/tmf_importer.rs","src/vertices.rs","src/unaligned_rw.rs"],
 [("DecodedSegment::merge / merge_segments","src/tmf.rs, src/tmf_exporter.rs"),("opt_tris","src/tmf_exporter.rs"),("save_triangles / read_default_triangles","src/vertices.rs, src/tmf_importer.rs")],
 ["TMFMesh::write_tmf + TMFMesh::read_tmf + get_*_triangles"],
 [("segment list","one mesh as an ordered list of typed segments","tmf_exporter::write_mesh")])
p("C02","Saved vertex positions stay within the requested tolerance",
 "For every mesh with finite coordinates of ordinary magnitude (squared lengths neither overflow nor underflow), saving and loading keeps the number and order of vertices, and no coordinate of any vertex moves by more than the requested fraction of the mesh's shortest non-degenerate triangle edge (of 0.1 if the mesh has no such edge), up to floating-point rounding. It holds for every arrangement of the points: flat, elongated, far from the origin, a single point, extremes in first or last place.",
 ["inputs"],"all finite vertex sets, triangle lists and vertex precision settings",
 "Random clouds of 2000 points in a cube at one tolerance of 0.1*0.01 checked against 0.01: no anisotropic mesh, no extreme in last place, no degenerate triangle, no empty array, no high precision.",
 ["src/vertices.rs","src/tmf_exporter.rs"],
 [("bounding box + bit count + quantisation","vertices::save_tmf_vertices / read_tmf_vertices"),("shortest edge","tmf_exporter::calc_shortest_edge"),("vertex splitting","tmf_exporter::opt_vertices")],
 ["write_tmf + read_tmf + get_vertices"])
p("C03","Saved normals and tangents keep direction and handedness",
 "For every unit normal or tangent, saving and loading keeps count and order, returns a unit vector in the same octant (components that are zero or below the quantisation step may take either sign), keeps the handedness sign of tangents, and moves the azimuth around the z axis by at most the requested angle and the z component by at most the requested angle in radians (up to floating-point rounding; the azimuth of a vector within one step of a pole is free). It holds for every requested angle that the constructors accept.",
 ["inputs"],"all unit vectors (axis vectors, signed zeros, magnitudes off by the tolerance verification allows), all requested angles",
 "The tests sample random directions at three fixed precisions and accept about 5 to 25 degrees of error; handedness is only tested on the in-memory codes, sign bits at exact axes and slightly-too-long vectors not at all.",
 ["src/normals.rs","src/tangents.rs"],
 [("normal_to_encoding / normal_from_encoding","src/normals.rs"),("tangent codec","src/tangents.rs")],
 ["write_tmf + read_tmf + get_normals / get_tangents"])
p("C04","Saved uv coordinates stay within the requested pixel tolerance",
 "For every uv coordinate in [0,1], saving and loading keeps count and order and moves no coordinate by more than the requested number of pixels at the requested texture resolution, up to floating-point rounding. The loaded coordinates stay in [0,1].",
 ["inputs"],"all uv arrays in [0,1]^2, all (resolution, deviation) settings",
 "One test at the default setting with a tolerance about 100 times the guarantee; the borders 0 and 1, other bit widths and repeated saves are untested.",
 ["src/uv.rs","src/unaligned_rw.rs"],[("save_uvs / read_uvs","src/uv.rs")],["write_tmf + read_tmf + get_uvs"])
p("C05","Custom data survives a save and load",
 "Every custom data array added to a mesh can be looked up after a save and load under the same name with the same kind and length: index and integer arrays with exactly the same values, float arrays within the array's precision and RGBA colours (components in [0,1]) within the array's precision. When several arrays have the same name, lookup gives the one added first both before and after.",
 ["inputs","histories"],"all sequences of added arrays, names (1 to 255 bytes of any UTF-8), kinds, lengths, values and precisions",
 "One short array of each kind with one name; no extreme widths, no constant arrays, no several arrays in one mesh, no duplicate or 255-byte names, no comparison of kinds.",
 ["src/custom_data.rs","src/tmf_exporter.rs","src/tmf_importer.rs","src/lib.rs"],
 [("CustomDataSegment encode/read","src/custom_data.rs"),("lookup_custom_data","src/lib.rs")],["add_custom_data, lookup_custom_data around write_tmf/read_tmf"])
p("C06","A file keeps every mesh, its name and its set of attributes",
 "Saving any list of named meshes and loading it returns the same number of meshes in the same order with the same names, and each loaded mesh has exactly the attributes (data arrays and index arrays, empty ones included) the saved one had. What a mesh loads as does not depend on which other meshes are in the file.",
 ["inputs"],"all lists of meshes (0, 1, many), all names, all subsets of attributes",
 "Only single-mesh files with all attributes are round-tripped through .tmf.",
 ["src/tmf_exporter.rs","src/tmf_importer.rs","src/tmf.rs","src/lib.rs"],[("write_tmf / write_mesh","src/tmf_exporter.rs"),("import / import_mesh","src/tmf_importer.rs"),("DecodedSegment::apply","src/tmf.rs")],["write_tmf + read_tmf"])
p("C07","A mesh that verifies can be saved, and loads back as one that verifies",
 "For every mesh with finite values of ordinary magnitude that verification accepts, saving succeeds (no panic, no error when the sink accepts the bytes), loading the result succeeds, and the loaded mesh is accepted by verification again. This includes meshes with empty arrays, degenerate triangles, index counts that are not multiples of three, and every precision setting.",
 ["inputs","configurations"],"all verified finite meshes and all precision settings",
 "Tests save one well-formed model with default settings.",
 ["src/verify.rs","src/tmf_exporter.rs","src/vertices.rs","src/normals.rs","src/uv.rs","src/custom_data.rs"],[("verify_tmf_mesh","src/verify.rs"),("write_mesh","src/tmf_exporter.rs")],["verify, write_tmf, read_tmf"])
p("C08","Verification accepts exactly the well-formed meshes",
 "Verification of a mesh succeeds exactly when, for vertices, normals and uvs, every index array has a data array and every index is smaller than its length, every normal has magnitude 1 within 0.001, and every uv component lies in [0,1]. Otherwise the returned status names each attribute at fault with the kind of fault, and verification never changes the mesh.",
 ["inputs"],"all combinations of attribute states, including boundary indices (length-1, length), empty arrays, NaN values and several faults at once",
 "No test verifies an invalid mesh.",
 ["src/verify.rs"],[("verify_vertices / verify_normals / verify_uvs","src/verify.rs")],["TMFMesh::verify"])
p("C09","Reading arbitrary bytes never crashes",
 "Reading a .tmf file from any byte sequence whatsoever ends with meshes or with an error value: it never panics, aborts, hangs or reserves memory for element counts the data cannot contain. Segments that declare more than 2^31 bytes or elements are refused as too long, precisions of 64 bits or more as invalid, unknown compression types as unknown.",
 ["inputs"],"all byte sequences: field-level corruption of valid files at every offset, crafted segments of every type with extreme counts, precisions and bases",
 "A fuzz target exists but is not run by the tests; no test feeds a malformed file.",
 ["src/tmf_importer.rs","src/tmf.rs","src/vertices.rs","src/normals.rs","src/tangents.rs","src/uv.rs","src/custom_data.rs"],[("EncodedSegment::read","src/tmf.rs"),("read_default_triangles","src/tmf_importer.rs"),("CustomDataSegment::read","src/custom_data.rs")],["TMFMesh::read_tmf"])
p("C10","A truncated file is always reported as an error",
 "Reading any strict prefix of a saved file, cut at any byte, returns an error (an end-of-file I/O error) and never a mesh list, complete or partial. Cutting the payload of one segment short in an otherwise complete file is an error too.",
 ["crash_points","inputs"],"all saved files, all cut positions (a crash while the file was being written)",
 "No test reads an incomplete file.",
 ["src/tmf_importer.rs","src/tmf.rs","src/unaligned_rw.rs","src/read_extension.rs"],[("read_exact in ReadExt / EncodedSegment::read","src/read_extension.rs, src/tmf.rs"),("end of data in UnalignedReader","src/unaligned_rw.rs")],["TMFMesh::read_tmf on prefixes"])
p("C11","The result does not depend on how the stream delivers its bytes",
 "Loading a .tmf or .obj file gives the same result however the reader splits the bytes into short reads or reports interruptions, a .tmf load consumes exactly the bytes of the file and no more, and a saved file is complete however the writer splits its writes. When the reader or writer fails with an I/O error at any point, the operation returns an I/O error (never success, never a panic), and what was written until then is a prefix of the complete file.",
 ["fault_sequences","crash_points","inputs"],"all chunkings, interruption patterns and failure positions of readers and writers",
 "Tests use whole files and vectors only, which never split, interrupt or fail.",
 ["src/tmf_importer.rs","src/tmf.rs","src/tmf_exporter.rs","src/obj.rs","src/read_extension.rs","src/unaligned_rw.rs"],[("read_exact / write_all","src/read_extension.rs, src/tmf.rs, src/tmf_exporter.rs"),("BufWriter + flush","src/obj.rs")],["read_tmf, write_tmf, read_from_obj, write_obj over instrumented Read/Write"])
p("C12","Concurrent segment decoding gives the sequential result",
 "Whatever order the segments of a mesh finish decoding in, and whichever threads and runtime decode them, the loaded meshes equal those of a sequential decode: split arrays are joined in file order, the right error is returned when some segment is bad, and concurrent loads of different files do not affect each other.",
 ["schedules","configurations"],"all completion orders of the decode tasks of a mesh, with the default executor and with the multi-threaded runtime, and concurrent loads from several threads",
 "Tests run whatever schedule the executor happens to produce, and with the default feature set there is only one.",
 ["src/tmf_importer.rs","src/lib.rs"],[("join_all over decode futures, tokio::task::spawn","tmf_importer::import_mesh"),("TOKIO_RUNTIME","src/lib.rs")],["read_tmf / read_tmf_async"],
 [("decoded_segs","decode tasks in file order","tmf_importer::import_mesh")],"cfg(tmf_verif) gate around each segment decode that forces a completion order")
p("C13","Versions gate reading, old layouts load, unknown segments are skipped",
 "Data that does not start with the magic is refused as not a TMF file; a file that requires a reader newer than this one is refused as such, while a file written by a newer version that this reader still satisfies is read. Files in the pre-0.2 layout (16-bit segment types, 64-bit lengths, no index base) are read with the meaning that layout defines, and segments of unknown type are skipped without affecting the rest.",
 ["inputs","configurations"],"all version quadruples, both layouts, unknown segments of any type number, length and position",
 "Tests only read files written by the same version; the old layout and unknown segments are never exercised.",
 ["src/tmf_importer.rs","src/tmf.rs"],[("read_tmf_header, SegLenWidth, SegTypeWidth, should_read_min_index","src/tmf_importer.rs"),("SectionType::from_u8/from_u16","src/tmf.rs")],["TMFMesh::read_tmf"])
p("C14","Unaligned bit arrays return what was written",
 "For any sequence of widths from 0 to 63 bits and values that fit, reading with the same widths returns the same values, most significant bit first and without padding between them, for every mix of the single, double, triple, pair and bit operations and for any splitting of the underlying reads. Reading past the last byte is an end-of-file error, never invented data.",
 ["inputs","histories"],"all sequences of write and read operations with widths 0..63, all chunkings of the source",
 "Tests use constant widths of 3, 4 and 12 and one ascending ramp, single reads at byte-sized inputs.",
 ["src/unaligned_rw.rs"],[("UnalignedWriter::write_unaligned / Drop","src/unaligned_rw.rs"),("UnalignedReader::read_unaligned, read2, read3, read_pair, read_bit","src/unaligned_rw.rs")],["tmf::unaligned_rw (public, hidden)"],
 [("current_byte,bits_read","refill buffer of the reader","UnalignedReader"),("next_byte,written","partial byte of the writer","UnalignedWriter")])
p("C15","Unifying index arrays changes the layout only",
 "For a mesh with in-range indices: after unifying, every attribute that has non-empty data and an index array has the same index array as every other such attribute, and each of its corners still refers to the same value as before; if the arrays differed before, each then has one element per distinct combination of corner attributes. Attributes without data or index array, custom data, and a mesh whose arrays agree already are unchanged, a second call changes nothing, and a mesh in which those index arrays have different lengths is left as it was.",
 ["inputs","histories"],"all meshes with in-range indices and every subset of the four attributes",
 "Tests compare index arrays of one model and never check that the corners keep their values; tangents and partial attribute sets are never unified.",
 ["src/unify_data.rs","src/lib.rs"],[("smart_merge_data_4 / merge_data_N / unfiy_data_common","src/unify_data.rs"),("unify_index_data","src/lib.rs")],["TMFMesh::unify_index_data + accessors"])
p("C16","Reordering changes the layout only",
 "After reordering, every corner of the vertex, normal and uv triangles still refers to the same value as before, the number of corners is the same, and the reordered data arrays contain exactly one entry per element that some triangle uses. Attributes without triangles, tangents and custom data are unchanged, and a second call changes nothing.",
 ["inputs","histories"],"all meshes with in-range indices",
 "One five-element example; the rest only checks that the model changed and still verifies.",
 ["src/utilis.rs","src/lib.rs"],[("optimize_triangle_indices","src/utilis.rs"),("reorder_data","src/lib.rs")],["TMFMesh::reorder_data + accessors"])
p("C17","A mesh holds exactly what was set, appended and added",
 "After any sequence of set, append and add operations a mesh reports for each attribute exactly the last set array followed by everything appended since, set returns the array it replaced, and nothing else changes. The corner buffers are the data elements in index order, and absent when data or indices are missing or an index is out of range; custom data is found under its exact name only, first added first, the accessor of its kind gives it and those of other kinds give nothing, and names that are empty or longer than 255 bytes are refused.",
 ["histories"],"all operation sequences over all attributes",
 "Tests and doc examples perform one operation at a time on one attribute and check lengths only.",
 ["src/lib.rs","src/custom_data.rs"],[("set_*/append_*/get_*/get_*_buffer","src/lib.rs"),("add_custom_data / lookup_custom_data","src/lib.rs")],["the public accessors of TMFMesh"])
p("C18","Exporting to .obj and importing again keeps the geometry",
 "For every list of triangle meshes with in-range indices and one-line names without blanks at either end, writing them to one .obj file and reading it back gives the same meshes in the same order with the same names, with the same corner values for vertices, uvs and normals, and without uvs or normals where the original had none. Meshes without triangles in the list do not change what the others read back as.",
 ["inputs"],"all lists of triangle meshes over all subsets of attributes; names of printable characters without leading or trailing blanks",
 "Tests write .obj files but never read one back.",
 ["src/obj.rs","src/model_importer.rs","src/utilis.rs"],[("save_obj / write_obj index offsets","src/obj.rs"),("parse_line / load_face","src/obj.rs"),("ModelImporter::next_mesh / finish","src/model_importer.rs")],["write_obj + read_from_obj"])
p("C19","Importing .obj text yields the geometry it describes or an error",
 "Reading .obj text never panics. For well-formed text (v, vt, vn, f and o lines, faces as v, v/vt, v//vn or v/vt/vn triples, any blanks, comments and unknown lines) it returns one mesh per object that has faces (the last object is returned even without), whose corners are the values the 1-based indices denote over all lines read so far, whatever unused elements precede them; malformed numbers, faces with fewer than three corners and indices that are not positive integers give an error.",
 ["inputs"],"all .obj texts built from these line kinds, all groupings into objects, all malformed variants",
 "Tests read four exporter-made files with full v/vt/vn faces and check nothing but index ranges.",
 ["src/obj.rs","src/model_importer.rs","src/utilis.rs"],[("parse_line","src/obj.rs"),("ModelImporter","src/model_importer.rs"),("fast_prune","src/utilis.rs")],["TMFMesh::read_from_obj"])
p("C20","Triangulation of a polygon covers it exactly",
 "With the triangulation feature, every face with n>3 corners becomes exactly n-2 triangles over its own corners such that every border edge of the polygon belongs to exactly one triangle in its original direction and every other edge is shared by two triangles in opposite directions, with vertex, uv and normal of each corner kept together. Such a face that refers to a vertex not yet defined is an error, not a panic.",
 ["inputs","configurations"],"all polygon sizes and corner indices",
 "The only test of triangulation is not marked as a test, so it never runs; quads happen to work where larger polygons do not.",
 ["src/triangulation.rs","src/model_importer.rs"],[("triangulate","src/triangulation.rs"),("push_face","src/model_importer.rs")],["read_from_obj with feature triangulation"])
p("C21","Saving is deterministic and repeated saves do not drift",
 "Saving does not change the mesh and gives the same bytes every time. Loading a file and saving it again with the same settings, any number of times, changes nothing beyond the first generation: names, attributes, index arrays, custom integers and colours, uvs, and the handedness and sign bits stay identical, and normals, tangents, vertices and custom floats stay within one tolerance of the first generation.",
 ["histories","inputs"],"all meshes, all precision settings up to 16 bits per component with a vertex precision of at most a tenth of the shortest edge, any number of generations",
 "No test saves anything twice.",
 ["src/tmf_exporter.rs","src/uv.rs","src/normals.rs","src/tangents.rs","src/custom_data.rs","src/vertices.rs"],[("quantisation to nearest","src/uv.rs, src/normals.rs, src/vertices.rs, src/custom_data.rs"),("segment order","tmf_exporter::merge_segments")],["write_tmf/read_tmf repeated"])
p("C22","Normalizing makes every usable normal a unit vector",
 "Normalizing scales every non-zero normal (of ordinary magnitude) to length 1 without changing its direction, leaves zero vectors finite, keeps count and order, and changes nothing but normals; without normals it does nothing. A mesh whose normals were all non-zero then satisfies the normal check of verification.",
 ["inputs"],"all normal arrays with magnitudes from 1e-15 to 1e15, and zero vectors",
 "The doc example normalizes three vectors.",
 ["src/normals.rs","src/utilis.rs","src/lib.rs"],[("normalize_arr / normalize","src/normals.rs, src/utilis.rs")],["TMFMesh::normalize"])
p("C23","Written files follow the published layout",
 "Every saved file can be decoded by an independent reader that knows only the documented layout: header, mesh headers, typed segments with lengths, index arrays as width, count, base and most-significant-bit-first packed values, shared index segments, quantised arrays with their bounds and widths. Decoded that way it contains exactly the indices of the saved meshes, and values within the tolerances, so files stay readable by other versions and tools; conversely files that follow the layout, however their arrays are split or shared, load with that meaning.",
 ["inputs"],"all saved meshes; all layout-conforming files, including ones this writer would not produce",
 "Tests only read what the same code wrote, so a change made on both sides passes unnoticed.",
 ["TMF_SPEC.md","src/tmf.rs","src/tmf_exporter.rs","src/tmf_importer.rs","src/vertices.rs","src/uv.rs","src/normals.rs","src/tangents.rs","src/custom_data.rs"],[("EncodedSegment::write","src/tmf.rs"),("save_* functions","src/vertices.rs etc.")],["the bytes of write_tmf; read_tmf on crafted bytes"])
p("C24","Single-mesh reads agree with the list reads, sync with async",
 "Reading a single mesh from a .tmf or .obj file succeeds exactly when reading the list gives one mesh, and then returns that mesh and name; no mesh and several meshes are reported as such (distinct errors for .tmf). The asynchronous readers give the same results as the synchronous ones, and the single-mesh writers write the same file as the list writers.",
 ["inputs","configurations"],"all files with 0, 1 or more meshes, good or malformed",
 "Only files with exactly one mesh are read this way, and the async readers are never run.",
 ["src/lib.rs","src/tmf_importer.rs","src/obj.rs"],[("read_tmf_one, read_tmf_one_async, read_tmf_async, read_from_obj_one, write_tmf_one, write_obj_one","src/lib.rs")],["those functions"])
p("C25","Saves that do not fit the format are refused, never silently altered",
 "Whenever saving reports success, loading the file gives back the saved names, counts and index data; input that the format cannot represent (a mesh name longer than 65535 bytes, more than 65535 segments in one mesh) makes the save return an error instead. Everything up to those limits is saved.",
 ["inputs"],"name lengths and segment counts around the limits of their length fields",
 "No test has a long name or many segments.",
 ["src/tmf_exporter.rs","src/tmf.rs","src/custom_data.rs"],[("write_mesh_name","src/tmf_exporter.rs"),("segment count in write_mesh","src/tmf_exporter.rs"),("EncodedSegment::write length","src/tmf.rs")],["write_tmf + read_tmf"])
p("C26","Exporting .obj writes triangle meshes and refuses everything else",
 "For every list of meshes with finite values, in-range indices and one-line names: writing them as .obj succeeds and the file reads back as the same meshes when each mesh consists of whole triangles (the number of vertex indices is a multiple of three, and uv and normal indices, where present, are as many as vertex indices); when any mesh in the list does not (a partial triangle, index arrays of different lengths, uv or normal indices without vertex indices), writing returns an error. A file that cannot be read back is never reported as written.",
 ["inputs"],"all lists of meshes over all subsets of attributes and all lengths of the index arrays; names without leading or trailing blanks",
 "Tests export only complete triangle meshes.",
 ["src/obj.rs"],[("save_obj length checks","src/obj.rs"),("write_obj","src/obj.rs")],["write_obj, write_obj_one + read_from_obj"])
p("C27","Builds with other index and number types read and write the same files",
 "The features long_indices (u64), short_indices (u16) and double_precision (f64) change the types of the API and never the format: a list of meshes saved by any build loads in every other build with the same names, attributes, counts, indices and integers, in the same order, and with floats within the requested tolerances (fine tolerances hold in double precision too). Loading a file with indices or integers which the types of the build cannot represent, in any array and layout, returns an error, never other (cut) indices; indices that have no form in the format (64 bits wide) are refused when saving. Exporting and importing .obj holds for every build as in the default one, however many elements the meshes of a list have together. So do verification (any number of elements; uvs barely out of range in double precision), unifying, reordering and the buffers; unifying leaves a mesh as it is if it has more different corners than the indices of the build can express, instead of mixing them up.",
 ["inputs"],"builds that compile; meshes within the documented limits of their index type",
 "The test suite is only built with the default types.",
 ["src/lib.rs","src/tmf_importer.rs","src/vertices.rs","src/custom_data.rs","src/obj.rs","src/verify.rs","src/unify_data.rs","src/utilis.rs"],[("IndexType, FloatType","src/lib.rs"),("rebase_index","src/tmf_importer.rs"),("save_triangles","src/vertices.rs"),("write_obj","src/obj.rs"),("indices_inside_array","src/verify.rs"),("unfiy_data_common","src/unify_data.rs")],["all of the API, in builds with other features"])
p("C28","Saved arrays take no more bits than their values and precision ask for",
 "Every saved file is as compact as the format's fixed-width packing allows for what was saved: an index or integer array is counted from its least value, in a width of at most the bits of its largest value (for custom data: of the maximum given with it, if larger); the box of each part of the vertices is exactly the box of its points, and no axis has more bits than steps of the requested vertex precision (a fraction of the shortest edge) need; normals, tangents, uvs, colors and custom floats have no more bits than their requested tolerances need, and one bit is the least; equal vertex, normal and uv index arrays of a mesh are stored once; attributes which a mesh does not have take no segment, and no segment has bytes beyond its elements.",
 ["inputs"],"all attributes, all precision settings, indices of all widths with gaps below the least and equal arrays; not claimed: that splitting arrays into parts never makes a file larger, and the choice of where to split",
 "Tests only see that files load; a file of twice the size passes them.",
 ["src/vertices.rs","src/tmf.rs","src/tmf_exporter.rs","src/normals.rs","src/uv.rs","src/custom_data.rs","src/tangents.rs"],[("save_triangles","src/vertices.rs"),("save_tmf_vertices","src/vertices.rs"),("merging of segments","src/tmf.rs"),("write_mesh","src/tmf_exporter.rs"),("from_deg_dev","src/normals.rs")],["write_tmf, write_tmf_one"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(x["id"],x["title"])
