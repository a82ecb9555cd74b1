import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
CV="lib/src/Converter.cpp"; VV="lib/src/VertexValue.cpp"; VF="lib/src/VertexFormat.cpp"
CH="lib/include/VFC/Converter.h"; IH="lib/include/VFC/IndexData.h"; VH="lib/include/VFC/VertexValue.h"; FH="lib/include/VFC/VertexFormat.h"
p("C01","Converted geometry draws exactly the input primitives",
"Drawing the converted result (every index buffer in order, with its base vertex, its index type and its restart value; or the plain vertex order when no indices are output) yields exactly the primitives that drawing the input streams yields: same count, same order, same vertices in each, none lost, duplicated or invented. This holds for every primitive type, patch size, input and output index type, number of input and output streams, placement of primitive restarts, and every maximum index value, however often the output has to be split into several buffers. (Only the winding of triangles cut from a strip is left to C02.)",
["inputs","configurations"],"All meshes (0..thousands of indices, heavy sharing, degenerates, restarts anywhere), all primitive types x input/output index types x max index values from the smallest legal to the largest.",
"The unit tests convert six or so hand-written meshes with one or two splits each; splits interact with restarts, degenerate primitives, deduplication and strip/fan history, which only appear over many generated histories.",
[CV,CH],[("split and copyConnectedVertices carry-over",CV),("addVertex deduplication",CV),("primitive restart handling",CV)],
["Converter::getVertices","Converter::getIndices","Converter::getVertexCount"],
[dict(name="m_indices/m_indexData",meaning="output index buffers and base vertices",where=CH)])
p("C02","Triangle winding and vertex order survive conversion and splitting",
"Every output triangle has the winding (cyclic vertex order) of the input triangle it stands for: list triangles and patches keep their exact vertex order, fan triangles keep the hub first, line segments keep their direction, and strip triangles keep the alternating orientation that strip drawing gives them, also for strips and fans that are continued in another index buffer after a split.",
["inputs","configurations"],"All strips, fans, lists, lines and patches, for every position of a split relative to the start of the strip (odd and even) and of restarts.",
"The one strip-split test has a split at a single parity and compares vertices only; orientation is never decoded from the indices.",
[CV],[("copyConnectedVertices strip/fan cases",CV)],["Converter::getIndices","Converter::getVertices"])
p("C03","Output vertices are deduplicated, and only when indices are output",
"With an index type set, no two vertices belonging to the same base vertex range are byte-identical across all output streams, every vertex a primitive uses appears in first-use order, and vertices that differ in any byte of any stream are never merged. Without output indices there is exactly one output vertex per input index (or input vertex), in input order, and no index buffer.",
["inputs","configurations"],"All meshes with repeated and nearly identical vertices (differing in one byte of one element of one stream), all format combinations, all splits.",
"Tests contain a handful of shared vertices in one or two streams; merging decisions depend on the hash set over every pair of vertices and on its reset at splits.",
[CV],[("VertexSet of VertexRef with VertexHash",CV),("vertexSet.clear on split",CV)],["Converter::getVertices","Converter::getIndices","Converter::getVertexCount"])
p("C04","Index buffers are structurally sound and respect the maximum index value",
"In every successful conversion each index is either the restart value (strips and fans only) or at most the converter's maximum index value, never a vertex index that equals the restart value in a strip or fan, and index plus base vertex addresses an existing vertex of the same base vertex range. Buffers have the requested type, are aligned, do not overlap, tile the vertices through increasing base vertices starting at 0, hold whole primitives for list types, and a new buffer is only started when the current one has no room for another primitive of new vertices. All output streams hold the same vertex count, a whole number of strides each. A mesh whose base vertices would exceed their 32-bit signed type is refused.",
["inputs","configurations"],"All meshes, primitive types, index types and max index values including 0, the minimum legal one, the type maximum and the restart value itself.",
"Tests use max values 5 to 7 on meshes of under ten vertices, and never the type limits.",
[CV,IH],[("room check before each primitive",CV),("maxIndexValue/primitiveRestartIndexValue",IH)],["Converter::getIndices","Converter::getVertices"])
p("C05","Every output attribute is the right input attribute, converted",
"For each output vertex, every element holds the value of the like-named element of the input stream that supplies it, fetched through that stream's own index, decoded per its layout and type, passed through the element's transform (identity, UNorm to SNorm as 2v-1, SNorm to UNorm as v/2+1/2, bounds), and encoded per the output layout and type at the output offset. It does not matter how elements are ordered, interleaved or distributed over input and output streams, and unrelated input elements have no influence.",
["inputs","configurations"],"All pairs of layouts/types, transforms, element orders, interleavings and stream distributions with independent per-stream indices.",
"Tests use single-element input streams almost throughout and a few layout pairs; offsets, stream/element mapping and transforms are a combinatorial space.",
[CV,VV],[("element mapping by name",CV),("transform switch in convert",CV)],["Converter::getVertices"])
p("C06","Reported element bounds are exactly those of the referenced input values",
"After conversion, an element's bounds are, per component, the minimum and maximum over exactly the input values the index data references (before any transform; missing components count as 0,0,0,1), independent of the order of indices, of unreferenced vertices, of restarts of the stream itself, of other elements in the same stream, and of NaN values elsewhere in the data. Lookups by name and by position agree.",
["inputs","configurations"],"All input streams including multi-element ones, sparse indices, restarts, NaN/inf data.",
"The bounds tests have a single element per input stream at offset 0 and reference every vertex.",
[CV,VH],[("bounds gathering pass",CV),("VertexValue::expandBounds",VH)],["Converter::getVertexElementBounds"])
p("C07","The Bounds transform is invertible from the reported bounds",
"When an element is converted with the Bounds transform to a UNorm or SNorm type, min + t*(max-min), with t the decoded output remapped to [0,1] and min/max the reported bounds (finite and further apart than the double epsilon), reproduces each referenced input value within half a quantum of the output type; the extremes map to the ends of the range exactly and order is preserved. For every other output type Bounds equals Identity.",
["inputs","configurations"],"All value distributions (tiny and huge ranges, constant components, negative ranges) and all UNorm/SNorm layouts.",
"Two tests with a handful of values; the guarantee is numeric, over every range and layout.",
[CV,VV],[("VertexValue::toData with bounds",VV)],["Converter::getVertices","Converter::getVertexElementBounds","VertexValue::toData(bounds)"])
p("C08","Decoding vertex data follows the format specification for every bit pattern",
"Reading any bit pattern in any legal layout/type pair gives the value the format defines: component order and bit positions as named, integers exact, UNorm c/max, SNorm linear from -1 to 1 over all codes, IEEE half/float/double, 11/10-bit unsigned floats, shared exponent; absent components are (0,0,0,1). The result does not depend on alignment or on bytes outside the element.",
["inputs"],"All 2^8, 2^16 codes per component, all component positions, dense samples of 32/64-bit patterns, all alignments.",
"Tests decode a few constants per layout.",
[VV],[("VertexValue::fromData",VV),("unpackHardwareHalfFloat4","lib/src/HalfFloat.h")],["VertexValue::fromData"])
p("C09","Encoding rounds to nearest and saturates for every input value",
"Writing any double (including denormals, huge values, infinities and NaN) to any legal layout/type pair stores a nearest representable value (halves may be rounded by way of single precision), and out-of-range values saturate to the nearest end of the range: UNorm/SNorm clamp to [0,1]/[-1,1], integers to their full range including 64-bit, packed unsigned floats to their largest finite value, negative values to 0. Float types follow IEEE rounding (overflow to infinity, NaN stays NaN), packed unsigned floats and shared exponents turn finite values above their maximum into it, integer and normalized types store NaN as zero, and encoding is monotonic per component.",
["inputs"],"All doubles: every code midpoint and neighbour, powers of two, limits of each type +-1ulp, random bit patterns, specials.",
"Tests write a few in-range constants; saturation at the 64-bit limits, ties, overflow of packed floats and NaN are unsampled, and undefined behaviour there gives compiler-dependent results.",
[VV],[("packUNorm/packSNorm/packInteger",VV),("glm packF2x11_1x10/packF3x9_E1x5",VV),("packHardwareHalfFloat4","lib/src/HalfFloat.h")],["VertexValue::toData"])
p("C10","Re-encoding decoded data is lossless",
"Decoding data and encoding it again in the same layout and type gives back the same bits (for every code of the integer, normalized and half types, 64-bit integers up to 2^53 in magnitude, every value but NaN of the float and packed float types up to their canonical form), and a conversion between identical input and output formats leaves every vertex bit for bit unchanged. Converting to a wider type of the same kind and back is lossless too.",
["inputs"],"All codes of all layout/type pairs (exhaustive to 16 bits per component, sampled beyond, 64-bit integers within 2^53).",
"Tests round-trip a few constants.",
[VV],[("fromData/toData pairs",VV)],["VertexValue::fromData","VertexValue::toData","Converter::getVertices"])
p("C11","Encoders and decoders touch exactly the element's bytes",
"Reading or writing an element accesses exactly the bytes given by its layout size at the given address, at any alignment: nothing before or after is read or written. A call that returns false (null data, illegal layout/type, invalid enum) writes nothing and leaves the value unchanged, and legality agrees with the published element-validity rule for every pair that can be put in a format.",
["inputs"],"All layout x type pairs including invalid enum values, all alignments, canaries and guard pages on both sides.",
"Tests use aligned local variables, without canaries or guards.",
[VV,VF],[("memcpy-based packing",VV),("isElementValid/elementLayoutSize",VF)],["VertexValue::fromData","VertexValue::toData"])
p("C12","Vertex formats stay tightly packed and uniquely named under any edits",
"After any sequence of appends, clears, copies and moves, a format lists the accepted elements in order, each at the offset equal to the sum of the preceding sizes, stride equals the total size, names are unique (case-sensitive), and lookup by name, containment and equality agree with that list. A rejected append (illegal layout/type, duplicate name) reports why and changes nothing.",
["histories","inputs"],"All operation sequences over all layout/type pairs and colliding or near-colliding names.",
"Tests perform a couple of fixed append sequences.",
[VF,FH],[("VertexFormat::appendElement",VF),("find/containsElements/operator==",VF)],["VertexFormat public API"])
p("C13","Enum names map one to one, case-insensitively",
"Every layout, type and primitive has one name (plus a colour alias for layouts) that maps back to it in any letter case; no other string maps to anything but Invalid; invalid enum values have no name; layout sizes and component naming agree with the name. The vertex count rule accepts exactly the counts that make whole primitives.",
["inputs"],"All enum values, all case variants, near-miss strings (prefixes, suffixes, edits), all counts 0..N for every primitive and patch size.",
"Tests check the names themselves and one or two variants.",
[VF,FH],[("elementLayoutMap/elementTypeMap/primitiveTypeMap",VF),("isVertexCountValid",VF)],["elementLayoutFromName","elementTypeFromName","primitiveTypeFromName","isVertexCountValid"])
p("C14","The converter enforces its protocol over any sequence of calls",
"For every sequence of construction, addVertexStream, transform changes, moves and convert: illegal configurations yield an invalid converter on which every operation fails cleanly; streams that are null, mismatched in count, of the wrong count for the primitive, or that supply an element twice are rejected and change nothing observable; convert fails until every output element has a source and can succeed only once; results survive moving the converter. Every failing call reports at least one message to the error function and every succeeding call reports none.",
["histories"],"Random call sequences over valid and invalid parameters, compared call by call with an executable model.",
"Tests exercise each error once, in isolation, never in combination or after a previous failure.",
[CV,CH],[("constructor validation",CV),("addVertexStream checks",CV),("convert preconditions",CV)],["Converter public API","ErrorFunction"])
p("C15","Hostile index data is rejected without reading out of bounds",
"If any index of any stream that supplies an output element is neither below that stream's vertex count nor a restart in a strip or fan, or if a restart occurs when no indices are output, convert fails with an error and without reading outside the supplied vertex and index memory; otherwise such data converts. Restart values count as ordinary (out of range) indices for list primitives.",
["inputs"],"All index values at and around the vertex count and the restart values, at all positions, in any of several streams, with exactly sized guarded buffers.",
"Tests try one out-of-range index in one stream.",
[CV],[("range check in the bounds pass",CV),("isPrimitiveRestart",CV)],["Converter::convert return value","AddressSanitizer"])
p("C16","Library calls are free of memory errors and undefined behaviour",
"No sequence of library calls within its documented contract (any formats, any data bytes, any indices, any max index value, any double values, any call order) triggers a memory error, a failed internal assertion, undefined behaviour or an exception.",
["inputs","histories"],"Random whole-API programs with hostile data, under address and undefined behaviour sanitizers with internal assertions on.",
"Tests run without sanitizers, on benign data.",
[CV,VV,VF,"lib/src/HalfFloat.cpp"],[("bounds checks and asserts",CV)],["AddressSanitizer/UBSan reports","process exit"])
p("C17","Conversion is a pure, deterministic function of its inputs",
"Converting the same input gives byte-identical vertices, indices and bounds every time: whatever was in memory before, wherever buffers live, whatever was converted earlier in the process, and whatever lies in bytes that belong to no element. Input vertex and index data are never modified, and no output byte is uninitialised.",
["inputs","histories"],"Repeated conversions under different heap fill patterns, buffer addresses, preceding workloads, read-only input pages, and definedness tracking of outputs.",
"Tests convert once per process and compare selected values.",
[CV,VV],[("vertexData staging buffers fully written",CV)],["Converter results across runs","valgrind memcheck definedness of outputs"])
p("C18","Independent converters can run concurrently",
"Distinct converters, formats and values may be used from different threads at the same time, sharing read-only input data and formats, without data races, and each produces the result it produces when run alone.",
["schedules"],"Concurrent workloads over many threads with shared const inputs, under a race detector with randomised delays.",
"All tests are single-threaded.",
[CV,VF,VV,"lib/src/HalfFloat.cpp"],[("no mutable global state","lib/src")],["ThreadSanitizer reports","comparison with sequential results"])
p("C19","Base64 encoding round-trips and decoding is strict",
"Encoding any bytes gives the canonical padded RFC 4648 text and decoding that text gives the bytes back. Decoding accepts exactly strings made of whole groups of four alphabet characters with at most two pad characters, at the very end; anything else is refused without reading past the terminator, and an accepted string decodes to 3 bytes per group minus the padding.",
["inputs"],"All byte strings up to length 2 exhaustively and random ones beyond, all short strings over alphabet/pad/illegal characters, all single-character mutations.",
"Tests check the RFC vectors and a few malformed strings.",
["tool/Base64.cpp"],[("base64::encode/decode","tool/Base64.cpp")],["base64::encode","base64::decode"])
p("C20","Configuration files are interpreted as documented",
"Every configuration that satisfies the documented schema loads into exactly what it says (formats, index type, primitive type, patch points, streams, transforms; optional members defaulted; enum names in any case and colour aliases accepted; element names case-sensitive), and every configuration that violates it in any one place is refused with an error message that starts with the file name, never half-loaded as success. Syntax errors report the line and column of the offending character. Unknown members are outside this property, and null stands for absent for the index and primitive type.",
["inputs"],"Generated valid configurations and all one-place violations of them (missing, wrong type, wrong value, duplicate name, empty array), any member order, extra members, whitespace.",
"Tests contain one valid configuration and one fixed case for each error.",
["tool/ConfigFile.cpp"],[("ConfigFile::load and read* helpers","tool/ConfigFile.cpp")],["ConfigFile accessors","error function"])
p("C21","The tool survives arbitrary input bytes",
"Whatever bytes are given as the configuration, vertex data, index data or base64 text, and whatever kind of file system object a path names (short of an endless or blocking source), the tool terminates normally: exit 0 with a complete result, or exit 1 with a diagnostic and nothing on standard output, and never crashes, hangs, or exhibits a memory error or undefined behaviour.",
["inputs"],"Mutated and random configurations and data, deep nesting, huge numbers, embedded NULs, invalid UTF-8, directories and missing files as inputs.",
"Tests feed the tool two well-formed configurations.",
["tool/main.cpp","tool/ConfigFile.cpp","tool/Base64.cpp"],[("error returns in main","tool/main.cpp")],["exit status, stdout, stderr of vfc","sanitizer reports"])
p("C22","The tool's output faithfully carries the whole conversion result",
"For every accepted configuration, the JSON printed is well-formed and states the format, offsets, stride, bounds (exact to the double), vertex count, index type and, per buffer, index count and base vertex of the conversion, and the vertex and index bytes it embeds or names are exactly those of the conversion. Embedded output, file output, file or base64 or mixed input, and configuration by file or standard input all give the same result.",
["inputs","configurations"],"Generated meshes driven end to end through the binary, in every input/output mode, small (one triangle) to large, with unusual element names and output directory names.",
"Two functional tests compare one fixed mesh; small results, many buffers, odd names and exact numbers are untested.",
["tool/main.cpp","tool/ResultFile.cpp"],[("writeOutput","tool/main.cpp"),("resultFile","tool/ResultFile.cpp")],["stdout of vfc","output files"])
p("C23","The tool never reports success when output could not be produced",
"If any read, directory creation, file write, flush or write to standard output fails or is cut short, or the result cannot be expressed as JSON, the tool exits non-zero with a diagnostic; exit 0 always means complete files and complete JSON. A conversion error leaves no result on standard output; running out of memory at any point never yields exit 0 with output that is missing or wrong.",
["fault_sequences"],"Each file system and output call of a run failing in turn (open, read, write, close, mkdir; ENOSPC, EIO, short writes), each allocation failing, and unwritable targets.",
"No test injects any fault.",
["tool/main.cpp"],[("writeFile/mkdirRecursive/printf of the result","tool/main.cpp")],["exit status, stdout, stderr and files under injected faults"])
p("C24","Paths resolve against the config; outputs land only in the output directory",
"Relative data paths are resolved against the configuration file's directory (the working directory for standard input), absolute ones are used as they are; the output directory and its missing parents are created, and every file the tool creates lies in it under the name the JSON reports; nothing else is created, modified or removed. Joining, splitting and classifying paths are mutually consistent.",
["inputs","configurations"],"Generated directory layouts, working directories, absolute/relative/dotted/odd paths, nested new output directories, file system snapshots before and after.",
"Path tests check a few literals; no test checks created directories or where files land.",
["tool/Path.cpp","tool/main.cpp"],[("path::join/getParentDirectory","tool/Path.cpp"),("mkdirRecursive","tool/main.cpp")],["file system before/after","stdout of vfc"])
p("C25","Result documents are valid JSON for any names, numbers and buffers",
"For any set of output formats (any element names, including quotes, control characters and UTF-8), bounds, data references and index buffers, the result document parses as JSON to exactly the values given, with numbers exact, and with index members present exactly when an index type is set and there are buffers to list; bounds that aren't finite are refused rather than written.",
["inputs"],"Random result descriptions including extreme doubles, empty and many streams/buffers and hostile names.",
"One test compares one fixed document.",
["tool/ResultFile.cpp"],[("resultFile","tool/ResultFile.cpp")],["resultFile return value parsed by an independent JSON parser"])
p("C26","The tool accepts exactly the valid inputs",
"The tool exits 0 exactly when the configuration and its data satisfy the documented rules: data a whole number of vertices or indices, counts that agree, within 32 bits and usable for the primitive type, indices in range, formats and index types that are legal, transforms that name an output element, and recognised options only. Any single violation makes it exit 1 with a diagnostic and nothing on standard output, whichever stream, buffer or option carries it; any change that means nothing (member order, white space, letter case of names, order of options) leaves the result byte for byte the same.",
["inputs","configurations"],"Generated valid runs, each broken in one place at a time (every kind of fault, any stream and position) and changed in harmless ways, by file, standard input and base64; data of over 2^32 vertices.",
"The functional tests run the tool on two valid configurations and no invalid one.",
["tool/main.cpp","tool/ConfigFile.cpp",CV],[("setupConverter checks","tool/main.cpp"),("option parsing in main","tool/main.cpp")],["exit status, stdout, stderr of vfc"])
p("C27","Work and memory grow in proportion to the data",
"The work done and the memory needed by a conversion, by base64 coding, by loading a configuration, by writing a result and by a whole run of the tool grow at most in proportion to the size of the input, however the vertices are shared, ordered and split over index buffers. No output of ordinary size takes quadratic time.",
["inputs"],"Generated inputs processed at a small and a 32 to 128 times larger size, every access pattern, primitive type, index type and index limit; the code's executed blocks, bytes moved and peak heap are counted and compared per unit of input.",
"The tests only use meshes of a few vertices and never look at cost.",
[CV,"tool/Base64.cpp","tool/ConfigFile.cpp","tool/ResultFile.cpp","tool/main.cpp"],[("VertexSet hashing",CV),("vector growth in addVertex",CV)],["executed blocks, bytes moved and heap of the library and tool functions"])
p("C28","The helpers applications read the results with mean what the converter means",
"Reading an index of a buffer yields exactly the stored number for its type, setting one stores exactly that (truncated to the type) and touches no other byte, and both report missing data or a missing type without touching memory; the size, largest value and restart value of an index type are those of its integers, so the largest ordinary index is one below the restart value. A vertex value is (0, 0, 0, 1) but for the components given, compares equal exactly when its components do, and expands bounds to the least and greatest of each component, NaN aside; bounds given when storing affect normalized types only.",
["inputs"],"Index buffers of every type and length ending at inaccessible memory, values over all doubles including NaN, infinities, denormals and signed zeros, every format with and without bounds.",
"The tests use the helpers on a handful of literals.",
["lib/include/VFC/IndexData.h","lib/include/VFC/VertexValue.h","lib/src/VertexValue.cpp"],[("getIndexValue/setIndexValue","lib/include/VFC/IndexData.h"),("VertexValue::expandBounds","lib/include/VFC/VertexValue.h")],["results of the helper functions and the bytes they touch"])
p("C29","A call that ends in an exception has no lasting effect",
"When a library call ends by an exception - memory that cannot be allocated, or one thrown by the error function the application gave - nothing is leaked, the vertex formats and converters involved are as they were before the call (apart from one being moved from or destroyed), no stream or result is half added, and repeating the call gives what it would have given at first. No failed allocation turns into a crash, a wrong result or a false return.",
["inputs","histories","fault_sequences"],"Every allocation of every call failing, alone or from there on, and every message thrown from the error function, in any history of construction, copies, streams, transforms and conversions.",
"No test makes an allocation fail or throws from the error function.",
["lib/include/VFC/VertexFormat.h","lib/include/VFC/Converter.h","lib/src/Converter.cpp","lib/src/VertexFormat.cpp"],[("Converter::addVertexStream","lib/src/Converter.cpp"),("Converter::convert","lib/src/Converter.cpp"),("VertexFormat::operator=","lib/include/VFC/VertexFormat.h")],["allocations that fail","the error function","state and results afterwards"])
p("C30","The library works the same whatever the process around it",
"Names are found, values encoded and decoded and meshes converted with the same results whenever in the life of a process the library is used - in static constructors before main(), in main(), in any thread, in static destructors after it - and whatever locale the process, thread or C++ runtime has been given. The library leaves the locale and the floating point environment as they are.",
["inputs","configurations","schedules"],"Every name in any case, every format and generated meshes, at every phase of a process and in every installed locale, including ones where I and i are no pair.",
"The tests only run in main() in the C locale.",
["lib/src/VertexFormat.cpp","lib/src/VertexValue.cpp","lib/src/HalfFloat.cpp","lib/include/VFC/VertexValue.h"],[("name tables","lib/src/VertexFormat.cpp"),("initial bounds","lib/src/VertexValue.cpp"),("half float dispatch","lib/src/HalfFloat.cpp")],["results of lookups, values and conversions at each phase"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); print(x['id'],len(x['title']), x['statement'].count('. ')+1)
