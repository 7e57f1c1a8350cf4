"""Per-property metadata used in evidence files and to write MANIFEST.json."""
META = {}


def m(prop, level, technique, rule, note, assumptions=(), bounds=None, bounds_text="", **k):
    META[prop] = dict(level=level, technique=technique, rule=rule, note=note,
                      assumptions=list(assumptions), bounds=bounds or {}, bounds_text=bounds_text, **k)


m("C03", "exploration", "exhaustive enumeration of all symmetry triples, documents and pairs on the real code",
  "A case is one triple (7^3 values incl. invalid), one text list, one document or one pair; non-trivial = distinct (case kind, accepted/rejected, resulting symmetry).",
  "Complete for the finite value space; documents bounded to one extra or repeated tag.")

m("C04", "model_checking", "exhaustive enumeration of all operation sequences on the real VoxelGrid against a set-of-cells model",
  "A case is one complete operation history (batches, rejected batches, empty batch, save+load, load over another grid) replayed on a fresh real grid; distinct = different (root, set of cells).",
  "Complete for the stated alphabet and depth; boundary points use binary fractions so that the cell of a point is exact.",
  assumptions=["cell counts whose product exceeds 2^63 are outside the explored space (documented limit in the source)"],
  bounds={"quick": "histories of 3 (one configuration: 4) operations over 11 operations (8 batches, rejected batch, empty batch, save+load) from 5 configurations; all ordered partitions of 5 points; extents up to 10^5 cells",
          "thorough": "histories of 4 (one configuration: 5) operations"})

m("C02", "fault_enumeration", "exhaustive enumeration of crash points and failures at every file-system call and byte of the real save code, trapped at the system-call boundary",
  "A case is one save with one fault (crash before a call, crash inside a write after n bytes, failing call, failing from a call on, short write, size limit) or one existing target; distinct = different (subject, fault, outcome).",
  "Calls are trapped with seccomp in a forked child, whoever makes them (Python, libstdc++, HDF5, libc). A crash is the end of the process; the order in which a power failure loses data already written is not modelled (the code never syncs).",
  assumptions=["what the process wrote before it ended is on the disk"],
  bounds={"quick": "12 scenes (3 types, 0-2 objects, absolute and relative): a crash before each call and after each byte of the scene index, each 13th byte and the 32 first and last of other writes; these scenes and 8 models, voxel grids and objects: 1-4 errors at each call, once and from then on, 3 short writes per write, every (large files: seventh) size limit; 162 existing targets; pairs of interrupted saves",
          "thorough": "every byte of every write, every size limit, all pairs of interrupted saves"})

m("C24", "model_checking", "exhaustive search over all operation sequences on the real dictionary against a plain dict model, and all object pairs",
  "A case is one operation history or one pair of objects/dictionaries; distinct = different (contents in order) or (outcome, differing fields).",
  "Every mutating entry point of dict with valid and foreign values; states merged only when contents and order agree, plus all unmerged sequences of 2 (thorough: 3).",
  bounds={"quick": "all histories to depth 4 (merged states) over all mutating dict entry points with 2-3 keys and 4 values; all unmerged pairs of operations; all object pairs up to 2 changed fields; all pairs of dicts up to 3 entries",
          "thorough": "depth 5; all unmerged triples of operations"})

m("C26", "exploration", "exhaustive enumeration of vectors, texts, print options and lattice lines against exact arithmetic",
  "A case is one vector with its type, layout and print options, one text, or one line with a point; distinct = different text or case.",
  "Number alphabets hold the extremes, denormals and halfway cases; on_left is judged with integers, unitize with exact fractions.",
  bounds={"quick": "all pairs of 24 and triples of 9 numbers, every 7th binary exponent, 11 print options; all texts of up to 3 of 17 parts; 5-value lattice at 8 scales; all lines through 18 points with 6 normals",
          "thorough": "every binary exponent; every line at all scales and types"})

m("C14", "model_checking", "exhaustive search over all transform sequences and mutation sequences on real scenes against a homogeneous-matrix model",
  "A case is one (track, object count, settings, transform history) or one (scene, side, mutation history); distinct = different history.",
  "Poses compared with independently multiplied 4x4 matrices (exactly for cube rotations, 1e-9 relative otherwise); every other field compared exactly.",
  bounds={"quick": "all transform sequences of length 2 (one scene: 3) over 6 poses and inverses for 27 scenes; all mutation sequences of length 2; all 2304 rotation pairs",
          "thorough": "transform sequences of length 4 (one scene: 5), mutation sequences of length 3"})

m("C05", "model_checking", "exhaustive enumeration of type pairs, conversion chains, field values and later mutations on the real converter",
  "A case is one (scene, conversion chain) or one (conversion, side, mutation history) or one vertex set; distinct = different outcome/history.",
  "Voxel results are checked with an exact triangle/box test (0.1 mm tolerance for single-precision data); the random draws of the voxelizer are fixed here and enumerated in C06.",
  bounds={"quick": "all 3x7 type/target pairs, all chains of two, scenes of 0-3 objects, every single field value; mutation sequences of length 2; vertex sets of up to 6 points on a 2x2x2 lattice",
          "thorough": "all shape combinations of 1-3 objects; mutation sequences of length 3; all pairs of triangles on the lattice"})

m("C01", "model_checking", "exhaustive enumeration of field values, paths, print options and save/load histories on the real scene code against a model of the scene",
  "A case is one (scene, settings, path kind, name, print options, number of rounds) or one history of edits and saves; distinct = different case outcome or different scene contents.",
  "Bit-exact comparison of poses, boxes, voxels, vertices and texels; every combination of the field alphabets for the box track, pairwise for the other two.",
  assumptions=["text is valid XML text without carriage returns; ids and names are usable as file names"],
  bounds={"quick": "all combinations of field values (boxes), pairs of neighbouring fields (voxels, meshes); 4 settings x 6 path kinds x 6 names x 5 print options; 0-3 objects x all shapes x 3 rounds; 40-object scenes; 144 numpy flags and scores; edit/save histories of length 4",
          "thorough": "all 8 ids and 7 symmetries in the product; all field pairs; 0-4 objects; 300-object scenes; histories of length 5"})

m("C13", "model_checking", "exhaustive enumeration over a finite rotation group with translations, and of all operation sequences, on the real pose code against homogeneous matrices",
  "A case is one pose, pair, triple, axis/angle, camera or history of operations; distinct = different case.",
  "The 24 cube rotations are closed under composition; reference values are independently computed 4x4 matrices and Rodrigues' formula.",
  bounds={"quick": "84 poses (28 rotations x 3 translations), all pairs, all triples of 28; 8 axes x 13 angles; 125 camera angles x 2; all operation histories of length 3 over 21 operations",
          "thorough": "all triples of 84 poses; histories of length 4"})

m("C11", "exploration", "exhaustive enumeration of all codes and of the depths at and next to every code boundary on the real coder",
  "A case is one block of codes (with all depths around the boundaries of the block), one special value, one legacy near plane or one image shape/layout; distinct = different case.",
  "Complete over codes; depths are those within 3 float32 steps of every code and code boundary (thorough: every float32 in 20 octaves).",
  assumptions=["depths are not negative and not NaN"],
  bounds={"quick": "65536 16-bit and 256 8-bit codes x 8 near planes, 8 depths around each of 2 points per code; 19 image shapes x 4 memory layouts",
          "thorough": "additionally every float32 depth of 20 octaves (168 million) in both widths"})

m("C20", "model_checking", "exhaustive enumeration of all small colour tables, lookups, images and call orders on the real class",
  "A case is one table (all ids around it, all names, all images over its ids), one large table or one call order; distinct = different table or history.",
  "Complete for the stated table sizes; reverse lookups do not exist in the code.",
  assumptions=["category names in a table are distinct; ids in images are not negative"],
  bounds={"quick": "all tables of 0-3 rows over 4 names and 4 colours, 132 name pairs, 100 file layouts; all images up to 2x2 over the ids in 10 integer types and 5 memory layouts, 21 ids beyond the table; tables up to 1000 rows; all call orders of length 3 over 3 objects",
          "thorough": "call orders of length 4"})

m("C21", "exploration", "exhaustive enumeration of all lattice boxes, pairs, lists, point sets and small meshes on the real code",
  "A case is one corner pair, one box against all 216 boxes, one list of boxes, one point sequence or one list of meshes; distinct = different resulting boxes.",
  "All coordinates are exactly representable, so every comparison is exact.",
  bounds={"quick": "729 corner pairs and 343 probe points each; 46656 pairs of boxes; all lists of 0-3 of 27 boxes; all point sequences of 0-2 of 27 points and of 3-4 of 8 points away from 0; all lists of 0-2 of 16 vertex sets (vertices without triangles too) as plain or textured meshes; 126 pairs of boxes that differ in one number by 0 ulp to 1",
          "thorough": "point sequences of 3 of 27 points; lists of 3 meshes; lists of 4-6 of 7 boxes; all corner types"})

m("C12", "exploration", "exhaustive enumeration of all pixels, range patterns, sizes and layouts on the real unprojection against an independent cube-map model",
  "A case is one image size (all its pixels), one pattern of valid/missing ranges, one memory layout, one size mismatch or one history; distinct = different case.",
  "The reference computes rays from the documented face layout and, independently, the pixel from the direction by its dominant axis; tolerance 1e-12 relative.",
  bounds={"quick": "sides 1-7 with every width up to 6 sides, 8 and 16; all assignments of 4-9 range values (including negative, infinite, NaN) to the pixels of 6 small shapes; one valid pixel at every place for sides 2-4; 36 memory layouts x 3 sizes; 1089 size pairs; histories of length 4",
          "thorough": "more sides; all 6^6 patterns of 2 shapes, 4^8 of another; histories of length 5"})

m("C09", "model_checking", "exhaustive search over operation histories of three real clouds against a list-of-points model, and enumeration of PLY layouts and write failures",
  "A case is one history, list of clouds, rotation with translation, sequence of draws, PLY file or failure point; distinct = different contents or case.",
  "Coordinates are exactly representable, so all comparisons are exact; PLY files are decoded and made here, independently of the code.",
  assumptions=["an ASCII file whose last number is cut is indistinguishable from a complete one"],
  bounds={"quick": "all histories of 3 operations over 43 operations from 3 starts (states merged); all joins of 0-3 of 5 clouds in 3 ways; 24 rotations x 27 translations; all draws of 0-3 points; 1538 written and 1900 made PLY files; every truncation of 3 files; 300 write limits for 6 clouds",
          "thorough": "histories of 4 operations"})

m("C10", "model_checking", "exhaustive enumeration of page sets, sizes, layouts, pixel values, older files, write-failure points and save/load histories on the real TIFF code",
  "A case is one image written and read back through every API, one hand-made file, one failure point or one history over two files; distinct = different case.",
  "Files are decoded and made by an independent TIFF reader and writer; pixel values compared exactly, depths with the documented quantisation.",
  assumptions=["depths are not negative and not NaN", "a zero range comes back as infinity (missing), as documented for code 0"],
  bounds={"quick": "8 page sets x 31 sizes, 13 near planes, 800 images with pages of one value, 4 memory layouts, all page orders; 256 size combinations; all 65536 values of each 16-bit page and all byte pairs; 131072 depths around code boundaries x 4; 1800 older files; write limits at every third byte of small files; all histories of 3 operations over 14 on two files",
          "thorough": "every byte limit; 6 near planes at all boundaries; histories of 4 operations"})

m("C08", "model_checking", "exhaustive search over operation histories of two real meshes against an explicit index/vertex model, and enumeration of merges, renumberings and cleanups",
  "A case is one history of edits, one pair with a common count, one injection, one index list or one point set; distinct = different contents or case.",
  "Coordinates are exactly representable, so all comparisons are exact; vertices left undefined by a renumbering with gaps are not compared.",
  assumptions=["indices refer to existing vertices; the common count of a merge does not exceed the vertices of the mesh merged in"],
  bounds={"quick": "all histories of length 3 (merged states) over 54 operations from 5 pairs; all 225 pairs of meshes with 0-5 common vertices; all injections of up to n+1 vertices into blocks of up to n+2; all 256 quadrant combinations; all 216 triangles over 6 points x 8 thresholds, and x 5 scales from 2^-20 to 2^20 x 3 thresholds; all triangles over 18 points",
          "thorough": "histories of length 4 over 62 operations"})

m("C07", "model_checking", "exhaustive search over operation histories of two real models against a list-of-primitives model, with every state also decoded from the saved files by an independent reader",
  "A case is one history of adding, updating, moving, copying, saving and loading, or one list of primitives, material, texture size, count or path; distinct = different contents or case.",
  "Geometry, texels and material values compared exactly; the files are read by a separate glTF/GLB/PNG reader that also checks references, bounds and alignment.",
  assumptions=["coordinates below 2^31 in magnitude", "a plain primitive that refers to a texture file is not moved between models"],
  bounds={"quick": "all histories of length 2 over 44 operations on two models from 3 starts, of length 3 over 20 operations on one model from 2 starts; all lists of 0-2 of 7 kinds of primitive; all pairs of 7 material updates x 3 models x 3 formats; 163 materials; 77 texture sizes; 240 counts; 720 paths; 432 meshes of several primitives; 81 orders of equal materials; all pairs of 20 materials of a file, saved and loaded in both formats",
          "thorough": "length 3 for two models with all kinds, length 4 for one; lists of 3"})

m("C22", "exploration", "exhaustive enumeration of legal layouts and of out-of-range fields on the real loader and packer, against an independent glTF/GLB reader",
  "A case is one combination of layout options (loaded, packed, saved again), one changed field, one pair of changed fields, one truncation length; distinct = different (case, accepted or not).",
  "A changed file must either be refused or read as the independent reader reads it; a worker that dies counts as a violation.",
  assumptions=["sparse accessors, node transforms, other primitive modes and percent-encoded uris are not layouts the code supports"],
  bounds={"quick": "5 attribute layouts x 3 view offsets x 3 accessor offsets x 3 buffer splits x 3 index widths x 3 image placements x 3 mesh arrangements x 3 packagings (optional fields present or absent), 4 kinds of reduction of the images; index widths at 14 sizes; every numeric field x 40 values; all pairs of 6 offset fields x 100 value pairs; every truncation length",
          "thorough": "the full product; 4 base documents for the changed fields"})

m("C15", "exploration", "exhaustive enumeration of all small similarity tables, score orders, flags, categories and threshold lists on the real evaluator against all greedy matchings",
  "A case is one table of similarities with scores, flags, categories and thresholds; distinct = different (case kind, matching).",
  "The matching is decoded from the public metrics (distances, sums of volumes and precision are different for different matchings); ties accept every greedy matching.",
  assumptions=["at least one evaluated ground-truth object for the shape and semantics scores"],
  bounds={"quick": "all tables up to 2x2 over 5 similarities, 2x3 and 3x2 over 3, 3x3 over 3, times all weak score orders (3x3: one); all 720 strict orders of 2x3 and 3x2; all orders of 1-3 thresholds; all flag and category assignments of 2+2 objects; all object orders of 3+2; 41400 assignments of close scores; displacement chains of 3-5",
          "thorough": "all score orders for 3x3, 2x4 and 4x2 strict orders, 4 similarities for 2x3, all orders of the similarities for the object orders"})

m("C16", "exploration", "exhaustive enumeration of all outcome lists, score orders and object counts on the real functions against their definitions",
  "A case is one list of (outcome, score) with an object count (all functions, sample lists and modes), or one small evaluation; distinct = different (ranked outcomes, ties, count) or case.",
  "Tied scores accept the value of any order of the tied detections; averages compared to 1e-12.",
  assumptions=["at least one ground-truth object", "recall samples or at least one detection for the mean over samples"],
  bounds={"quick": "all outcomes x all weak score orders up to length 4 (length 5: half) x 2-3 counts; all outcomes up to length 9 in rank order; 240 patterns up to length 257; 12^3 score values; 240 type combinations; 7 lists of recall samples, also next to every attainable recall; 6600 evaluations over 2-3 categories and 1-3 thresholds",
          "thorough": "length 6 with all weak orders, length 12 in rank order, length 1001, all similarities in the evaluations"})

m("C17", "exploration", "exhaustive enumeration of rotation pairs times all valid symmetries, and of conversion inputs, on the real code against group-theoretic and independent formulas",
  "A case is one pair of rotations with a symmetry, one mean, or one rotation in one representation; distinct = different case or matrix.",
  "The expected error is the minimum over the generated finite symmetry group, or the angle between the axes for cylinders; tolerance 1e-6.",
  bounds={"quick": "all 576 pairs of cube rotations x 18 valid symmetries (a sixth for the 3 x fourFold); 9324 equal and equivalent generic orientations; 63 generic, tiny and near-half-turn offsets x 6 positions x 18 symmetries; 224 tilts and spins per cylinder; 700 means; 1536 rotations, 3000 Euler triples with 28 near-lock pitches, 600 quaternions",
          "thorough": "all positions and the full product of angles"})

m("C23", "exploration", "exhaustive enumeration of all small point sets, voxel sets, coloured point models and lattice boxes on the real code against brute-force definitions",
  "A case is one pair of sets or boxes with a threshold and pose, or one mean; distinct = different (overlap, sizes, threshold) or case.",
  "Distances on the lattice and overlaps of boxes with common axes are exact; boxes with different axes use an independent half-space intersection. pymesh is replaced by an exact stand-in for the volume of the intersection of two closed meshes.",
  assumptions=["boxes have positive volume", "pymesh computes the volume of the intersection of the solids it is given"],
  bounds={"quick": "all unordered pairs of subsets of 6 lattice points x 8 thresholds (both argument orders); 336 axis gaps; 25 rotations x 3 translations x 2 orders x 49 pairs; nearest neighbours of all ordered pairs; all pairs of subsets of 4 cells under 2 rotations x 3 thresholds; 7x7 subsets of coloured points x 60 colourings x 2; all matches of up to 3 objects; 729 box pairs plus 590 posed ones",
          "thorough": "ordered pairs, all 24 rotations for voxels, all 4096 colourings, 2457 x 2 box pairs and all posed ones"})

m("C18", "model_checking", "exhaustive enumeration of small scenes, orders, motions and evaluation histories in all three tracks on the real evaluators against a complete reference evaluation",
  "A case is one pair of scenes (all metrics compared), one self-evaluation, one addition of an object, one order/motion, one history of evaluations or one command line; distinct = different results or case.",
  "The reference evaluation is written from the documentation and shares no code with the evaluators; for boxes the known notch (see C23) is accepted as well. Ties accept every greedy matching.",
  assumptions=["at least one evaluated object for the shape score, one of a selected category for the semantics score, an evaluated floor (and no other floor) for a perfect perceptual score",
               "the perceptual score is invariant under motions that keep the vertical axis"],
  bounds={"quick": "all scenes of up to 2+1 and 1+2 objects and a fifth of 2+2 from 12 truth and 9 submission objects in 3 tracks; 1500 self-evaluations; 2016 scenes with flat bounds; 1496 other settings (one or two perceptual parameters, overlap distances); 1296 additions and 1296 orders and motions; 2960 pairs of lists of overlapping rows; histories of 3 of 18 operations, and of 2 of 24 edits of the scenes between evaluations; 189 command lines",
          "thorough": "all 2+2 scenes in all orders, histories of 4"})

m("C06", "model_checking", "exhaustive enumeration of the answers of the random source, models, textures and poses on the real samplers against exact geometry",
  "A case is one model with a density and one sequence of random answers, one texture place, one pose, one grid of answers or one voxelization; distinct = different case.",
  "numpy's random source is replaced by enumerated answers (0, the largest number below 1 and values between); each sample must lie on a face and have the colour interpolated from the texels at the corners, each face its share of the samples.",
  assumptions=["samples have no normals (positions and colours only)", "texture coordinates for every vertex"],
  bounds={"quick": "25 answers for each of 4 samples in 7 models at 3 densities; all 3^6 sequences in 3 models; 2160 one-face models and 330 larger ones x densities; all places (wrapped) of 7 textures; 350 poses; grids of 400 and 961 answers; 1900 voxelizations",
          "thorough": "5^6 sequences, all pairs of triangles and kinds, all texture places, 3^4 answers for voxelizations"})

m("C19", "fault_enumeration", "exhaustive enumeration of structural edits, byte edits, truncations and missing files of every format on the real readers, built with the address sanitizer",
  "A case is one damaged file given to one reader (or to all that read it); distinct = different damage and outcome.",
  "Each outcome is compared with an independent reader of the format: a file that reader refuses must be refused (or read as before the damage), any other must be read as it says. An access outside of the data ends the process, which is a violation.",
  bounds={"quick": "scenes of 3 types: 29 texts in every element, every element dropped, emptied, doubled, renamed, swapped or given a child, pairs of drops; 12 values at each byte and every truncation; every truncation of every file of an object; voxel files: every missing field, 1 or 2 of about 70 wrong or right field values; glTF/GLB in 3 layouts: 17 values at each place of the document, header bytes, truncations of pictures; PLY: 27 words at each word of the header, 8 values at each byte, 3 encodings; TIFF: every truncation and about 40 values of each directory field, descriptions and page names; 8 readers on absent, foreign, empty, looping and unreadable files",
          "thorough": "as quick, with 52 to 256 values per byte"})

m("C25", "model_checking", "exhaustive enumeration of server answers, folder states, damaged archives, kills and failures at every file-system call, and of task schedules up to two preemptions, on the real tool",
  "A case is one history of runs of the tool (with its faults or schedule) followed by undisturbed runs; distinct = different case or resulting states.",
  "The server is a stand-in for the requests package; the pool of processes runs in order, or in forked children that move one file-system call at a time in an enumerated order. Calls are trapped with seccomp.",
  assumptions=["names of archives are plain file names ending in .zip", "what a killed process wrote before is on the disk"],
  bounds={"quick": "all answers (10 kinds) to 1-3 attempts for one archive, with 4 plans for a second, 1000 for three; all 9^3 folder states, 11 folder names; 22 archive names alone and in pairs in 9 states; 750 states of a nearly full disk; 7 values at each byte and every truncation of two (three) archives; a kill at each call and each seventh byte, errors at each call once and from then on in 3 setups; pairs of disturbed runs; all schedules of 2 tasks with up to 2 preemptions in 3 setups and 2 phases, each third of 3 tasks",
          "thorough": "two archives with all answers, all byte values, all bytes of writes, all orders of 3 tasks"})

for _c in ("C06", "C07", "C08", "C09", "C10", "C11", "C12", "C19", "C22"):
    META[_c]["asan"] = ("quick", "thorough")
