#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
A = "sumo-api/sumo/"
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": [f if f.startswith("tools/") else A + f for f in files],
                     "mechanism": [{"name": n, "where": (w if w.startswith("tools/") else A + w)} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": A + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Saving a scene and loading it back yields the same scene",
  "A scene that is saved to disk and loaded again has the same project type, the same settings and the same set of objects, and every object keeps its id, category, pose, bounds, symmetry, score, evaluated flag and shape (box, occupied voxels, or mesh geometry and materials, at least one mesh). This holds for every track, for absolute and relative target paths, for any XML text (without carriage returns) in settings and categories and any id usable as a file name, and whatever the process's number-printing options are. Saving does not alter the scene being saved, and saving the loaded scene again yields the same scene once more.",
  ["inputs", "configurations", "histories"],
  "All three project types; every combination of object count 0..3 with field values drawn from small adversarial alphabets (non-ASCII and XML-special text, values needing 17 digits, negative zero and tiny/huge magnitudes, every symmetry kind, both flags); relative and absolute paths; several numpy print-option settings; save-load-save-load chains.",
  "The tests save one example scene to an absolute path and compare only sizes and approximately equal poses, under default print options.",
  ["semantic/project_scene.py", "semantic/project_object_dict.py", "semantic/project_object.py", "geometry/pose3.pyx", "geometry/rot3.pyx", "base/vector.pyx", "threedee/box_3d.pyx", "threedee/voxel_grid.py", "threedee/gltf_model.pyx", "threedee/glb_converter.pyx"],
  [("scene save/load", "semantic/project_scene.py:ProjectScene.save/load"), ("object xml codec", "semantic/project_object.py:_to_xml/_parse_xml"), ("box codec", "threedee/box_3d.pyx:to_xml/from_xml"), ("pose codec", "geometry/pose3.pyx:to_xml/from_xml")],
  ["ProjectScene.save", "ProjectScene.load"])

p("C02", "An interrupted or failed save is never mistaken for a complete scene",
  "If saving a scene is cut short at any point, whether by a crash between or inside file writes or by a failing file operation, then loading what was left either raises an error or gives the complete scene, never a scene that silently lacks or alters objects. A save in which creating, writing or renaming a file or folder fails reports the failure to the caller and never returns as if it had succeeded, and a save that ends, in success or failure, leaves the working directory unchanged and no temporary files behind. Saving to a name that already exists fails and changes nothing on disk.",
  ["crash_points", "fault_sequences", "histories"],
  "For each track and 0..2 objects, and for the standalone save calls of models and voxel grids: a crash before every file-system call of a save and inside every write after each enumerated number of bytes; every single call failing with each of several errors; every byte limit on file size; every kind of pre-existing target.",
  "No test interrupts a save or makes a write fail; the space of crash points is never sampled.",
  ["semantic/project_scene.py", "semantic/project_object.py", "threedee/gltf_model.pyx", "threedee/glb_converter.pyx", "threedee/voxel_grid.py"],
  [("objects are written before the scene index", "semantic/project_scene.py:ProjectScene.save"), ("exclusive directory creation", "semantic/project_scene.py:os.makedirs"), ("GLB written through a temporary directory", "threedee/gltf_model.pyx:save_as_glb")],
  ["ProjectScene.save", "ProjectScene.load", "GltfModel.save_as_glb"])

p("C03", "Object symmetry: rules, equality and encoding are consistent",
  "An object symmetry can be created, from values, from text or from a document, exactly for the documented combinations of axis symmetries; every other combination, an unknown or missing axis included, is rejected with the documented error and never yields a value. Equality holds exactly when all three axes agree, and inequality is its negation. Writing a symmetry and reading it back gives an equal symmetry, its axes cannot be changed afterwards, and encoding does not change it.",
  ["inputs", "histories"],
  "All triples over the five values plus invalid ones, for each way of construction; all documents over present, absent, repeated, reordered and foreign tags with valid and invalid text; all pairs of valid symmetries.",
  "Tests construct a handful of triples and never use inequality or malformed documents.",
  ["semantic/object_symmetry.py"],
  [("validation and axis properties", "semantic/object_symmetry.py:ObjectSymmetry"), ("xml codec", "semantic/object_symmetry.py:to_xml/from_xml")],
  ["ObjectSymmetry"])

p("C04", "A voxel grid is exactly the set of cells its points fall in",
  "After any sequence of additions, saves and loads, a voxel grid's occupied cells are exactly the cells that contain a point added so far, independent of how the points were grouped into calls and of their order. Each occupied cell is reported once, by its centre, and the reported bounds are exactly the extent of the occupied cells. A saved grid loads back with identical occupied cells, voxel size and origin, and points below the grid's origin are rejected without changing it.",
  ["histories", "inputs"],
  "All sequences of up to 4 operations (point batches over a small lattice including cell boundaries and batches that grow one dimension while shrinking another, save+load, rejected batches) for several voxel sizes and origins, and all partitions of a point set into ordered batches.",
  "The tests add one or two batches of growing extent and check only a few indices.",
  ["threedee/voxel_grid.py"],
  [("grid growth", "threedee/voxel_grid.py:VoxelGrid.add_points"), ("index/centre conversion", "threedee/voxel_grid.py:voxel_centers/bounds"), ("h5 codec", "threedee/voxel_grid.py:save/load/from_file")],
  ["VoxelGrid.add_points", "VoxelGrid.voxel_centers", "VoxelGrid.bounds", "VoxelGrid.save", "VoxelGrid.from_file"],
  [("grid", "occupancy array and its extents", "threedee/voxel_grid.py:VoxelGrid")])

p("C05", "Scene conversion keeps everything but the shape representation",
  "Converting a scene succeeds exactly for meshes to voxels, meshes to boxes and voxels to boxes, and is otherwise rejected with an error. The result has the same settings, ids, categories, poses, symmetries, scores and evaluated flags, and its shapes are consistent with the source: boxes equal the exact bounds of the source shape, and voxels are occupied only where the source surface is. The source scene is unchanged, and later changes to either scene's settings, poses or object set do not show in the other.",
  ["inputs", "configurations", "histories"],
  "All 3x3 (plus unknown) type pairs; scenes of 0..3 objects over alphabets of every field; chained conversions in every allowed order; every single-field mutation of one side after conversion.",
  "Tests convert one scene per pair and check counts, types and near-equality of poses only.",
  ["semantic/project_converter.py", "threedee/compute_bbox.pyx", "threedee/voxelizer.pyx"],
  [("conversion", "semantic/project_converter.py:ProjectConverter.run/convert_element")],
  ["ProjectConverter.run", "ProjectConverter.convert_element"])

p("C06", "Surface sampling yields points on the model with its own attributes",
  "Whatever numbers the random source returns, every point sampled from a model with a positive density lies on one of its triangles and has the colour of the model's base-colour texture there, interpolated from that triangle's corners (middle grey for a model without texture), and sampling an object also applies its pose. Every triangle of every primitive gets the whole part of density times area as its number of samples, and at least one, so a degenerate triangle gets exactly one, and a model without triangles gives no samples rather than a failure. Voxelizing marks only cells that contain a point of the surface, in the frame of the model, and neither operation changes the model.",
  ["inputs", "configurations"],
  "Every combination of enumerated random draws (each of the two numbers over values including 0, the fold line and the largest below 1) for models of 0..3 primitives with one or more triangles, coloured and textured with every texel distinct, several densities, poses and voxel sizes.",
  "Tests draw random numbers once and check sizes and ranges only.",
  ["threedee/model_sampler.pyx", "threedee/voxelizer.pyx", "metrics/mesh_evaluator.py"],
  [("sampling", "threedee/model_sampler.pyx:ModelSampler.run"), ("voxelization", "threedee/voxelizer.pyx:Voxelizer.run"), ("evaluation sampling", "metrics/mesh_evaluator.py:sample_element/sample_mesh")],
  ["ModelSampler.run", "Voxelizer.run", "sample_element", "sample_mesh"])

p("C07", "A glTF model holds exactly the meshes and materials put into it",
  "After any sequence of adding coloured or textured primitives, changing materials, copying, and saving and loading as glTF or GLB, the model reports exactly the primitives that were added, in order and with the same geometry, texture coordinates, texture image or base colour and material values. Copies are independent: changing one never changes the other. Saving a model with at least one mesh does not change it, does not depend on the current directory, and a saved model loads back equal in both formats.",
  ["histories", "inputs"],
  "All operation sequences up to the stated depth over small primitives (shared and distinct textures, colours with zero channels, materials with repeated and unusual names, index and vertex counts of both parities), from an empty and from a loaded model.",
  "Tests add one or two primitives and check counts, never interleavings with copies, saves and material updates.",
  ["threedee/GltfModel.cpp", "threedee/GltfModel.h", "threedee/gltf_model.pyx", "threedee/glb_converter.pyx", "threedee/gltf.pyx", "threedee/tiny_gltf/tiny_gltf.h"],
  [("model construction", "threedee/GltfModel.cpp:GltfModel"), ("GLB packing", "threedee/glb_converter.pyx"), ("python API", "threedee/gltf_model.pyx")],
  ["GltfModel.add_textured_primitive_mesh", "GltfModel.add_primitive_mesh", "GltfModel.save_as_glb", "GltfModel.save_as_gltf", "GltfModel.load_from_glb"])

p("C08", "Mesh editing preserves the triangle surface",
  "Merging meshes yields exactly the triangles of both inputs, in order, with their own positions, normals and texture coordinates, and with any declared common leading vertices counted once. Replacing geometry, copying, renumbering and quadrant or cleanup edits change nothing but what they document, every index they produce from valid indices refers to an existing vertex, and the arguments of an edit are not changed by it. Copies and merged-in meshes stay independent of later changes, including when a mesh is combined with itself.",
  ["histories", "inputs"],
  "All operation sequences up to the stated depth over small meshes (empty, single triangle, shared vertices, unused vertices, unordered indices) checked against an explicit list of triangles.",
  "Tests merge one pair of cubes and run each edit once.",
  ["threedee/Mesh.cpp", "threedee/Mesh.h", "threedee/TexturedMesh.cpp", "threedee/TexturedMesh.h", "threedee/mesh.pyx", "threedee/textured_mesh.pyx"],
  [("mesh edits", "threedee/Mesh.cpp:Mesh::merge/replaceGeometry/cleanupMesh"), ("textured edits", "threedee/TexturedMesh.cpp:TexturedMesh::merge/renumber")],
  ["Mesh.merge", "TexturedMesh.merge", "TexturedMesh.renumber"])

p("C09", "Point clouds keep points and colours aligned through every operation",
  "After any sequence of appending, merging and transforming, a point cloud holds exactly the points given to it, in order, each with its own colour, and an operation that would break the pairing is rejected without changing the cloud. Projection and transformation give, for every point, the documented geometric result, and the operand clouds are not changed. Writing a cloud to a PLY file stores exactly its points (in single precision) and colours, reading a PLY file in any supported layout gives its points, and a write that cannot be completed is reported.",
  ["histories", "inputs", "fault_sequences"],
  "All sequences up to the stated depth of construction, append, merge and rigid transform over clouds of 0..3 points with and without colours; all PLY attribute/encoding combinations over adversarial coordinates; every output-size limit at which a write can be cut.",
  "Tests merge two clouds of one kind once and read one PLY file.",
  ["threedee/PointCloud.h", "threedee/point_cloud.pyx", "threedee/point_cloud_ply.pyx", "threedee/point_cloud_ply_c.cpp"],
  [("cloud operations", "threedee/PointCloud.h:PointCloud::append/merge"), ("python API", "threedee/point_cloud.pyx"), ("ply codec", "threedee/point_cloud_ply_c.cpp")],
  ["PointCloud.append", "PointCloud.merge", "PointCloud.transform_from", "PointCloudPly"])

p("C10", "RGB-D images survive a save and load through multi-page TIFF",
  "An RGB-D image (with or without category and instance maps) or a multi-page image that is written and read back has the same pages with the same pixels, and the same depths up to the documented inverse-depth quantisation; a depth of zero or beyond the coded range comes back as missing (infinity) or at the end of the range. Pages that were not written read as absent, and files in the older page layout with 8-bit inverse depth still read. Writing does not alter the image, and a write that does not complete is reported.",
  ["inputs", "configurations", "fault_sequences"],
  "All page subsets, several image shapes, every 16-bit inverse-depth code and a lattice of depths around every quantisation step in range, all 8-bit channel values in each channel position, every output-size limit at which the write can be cut.",
  "Tests round-trip one random image of one shape within a tolerance.",
  ["images/RgbdTiff.cpp", "images/rgbd_tiff.pyx", "images/multi_image_tiff.pyx", "images/rgbd_360.pyx", "images/rgbdci_360.pyx", "geometry/inverse_depth.pyx", "opencv/wrap.pyx"],
  [("tiff codec", "images/RgbdTiff.cpp"), ("python image classes", "images/rgbdci_360.pyx")],
  ["RgbdTiff", "MultiImageTiff", "Rgbd360", "Rgbdci360"])

p("C11", "Inverse-depth coding is monotone and loses at most half a step",
  "Every code decodes to a depth that encodes to the same code again, and every depth inside the coded range decodes from its code to within half a quantisation step in inverse depth. A larger positive depth never gets a larger code, positive depths at or nearer than the near plane get the largest code, depths beyond the range and unknown depth (zero) get code 0, and code 0 decodes to infinity. Scalar and image functions of both widths agree with one another and with the conversion from 8 to 16 bits, and inputs are not modified.",
  ["inputs", "configurations"],
  "All 65536 16-bit and 256 8-bit codes, the depths at, just below and just above every code boundary, the range limits and special values, for the default and several other coder configurations.",
  "Tests check a few depths with a tolerance.",
  ["geometry/inverse_depth.pyx"],
  [("coder", "geometry/inverse_depth.pyx:InverseDepth")],
  ["InverseDepth"])

p("C12", "Cube-map pixels unproject to the right place at the right range",
  "Each pixel of a cube-map range image corresponds to one ray, and its 3D point lies on that ray at exactly the stored range, the six faces together covering all directions once and neighbouring faces meeting at their edges. The point cloud made from an image contains exactly one point per pixel with valid (positive, finite) range, in the order of the pixels and with that pixel's colour, and none for pixels without range. Images wider than six square faces are rejected with an error, narrower ones hold the leading faces.",
  ["inputs", "configurations"],
  "All pixels of all six faces for side lengths 1..6 (and one realistic size), every subset of valid pixels on small images, all malformed shapes up to a bound, and all call orders of the cached/uncached entry points.",
  "Tests check the size of one cloud and a few corners.",
  ["images/CubeMap.h", "images/Rgbdci360.cpp", "images/rgbdci_360.pyx", "images/rgbd_360.pyx"],
  [("unprojection", "images/CubeMap.h"), ("cloud creation", "images/Rgbdci360.cpp")],
  ["Rgbdci360.create_point_cloud", "Rgbd360"])

p("C13", "Poses and rotations form a group and act consistently on points",
  "For all poses and proper rotations: composition is associative, has the default instance as identity and the inverse as inverse, and agrees with applying the transforms one after the other, to one point or to many, forwards and backwards. Conversions between matrix, quaternion, Euler-angle, axis-angle and XML forms preserve the transform. Operations never change their operands, and a default-constructed instance is the identity no matter what was done to earlier instances.",
  ["inputs", "histories"],
  "All pairs and triples over a finite rotation group (24 cube rotations, closed under composition) and generic rotations, times a small lattice of translations; all operation sequences up to depth 3 including in-place updates of returned values.",
  "Tests try single hand-picked poses and never mutate an instance before creating the next.",
  ["geometry/pose3.pyx", "geometry/rot3.pyx", "geometry/quaternion.pyx", "base/vector.pyx"],
  [("pose", "geometry/pose3.pyx:Pose3"), ("rotation", "geometry/rot3.pyx:Rot3"), ("quaternion", "geometry/quaternion.pyx"), ("vectors", "base/vector.pyx")],
  ["Pose3", "Rot3", "Quaternion", "Vector3"])

p("C14", "Re-posing a scene is a group action that only touches poses",
  "Transforming a scene or object by a pose places every point of every object where the pose maps it, transforming by two poses in turn equals transforming by their composition, and by a pose and its inverse gives back the original. The result keeps the project type, settings, ids, categories, symmetries, scores, evaluated flags and shapes, and is an ordinary scene that can be changed, saved and loaded. The original scene is unchanged, and so is every other scene when one scene's settings are changed.",
  ["histories", "inputs"],
  "All sequences up to length 3 of transforms over a small pose set, for scenes of each track with 0..2 objects and default or custom settings, followed by each of save/load, insert, and settings change.",
  "One test transforms one example scene once and checks translation.",
  ["semantic/project_scene.py", "semantic/project_object.py", "geometry/pose3.pyx"],
  [("scene transform", "semantic/project_scene.py:transform_pose"), ("object transform", "semantic/project_object.py:transform_pose"), ("default settings", "semantic/project_scene.py:DEFAULT_SETTINGS")],
  ["ProjectScene.transform_pose", "ProjectObject.transform_pose"])

p("C15", "Detections are matched to ground truth greedily, one to one",
  "At every similarity threshold the association pairs each detection with at most one ground-truth object and vice versa, only pairs whose similarity reaches the threshold, and takes detections in order of decreasing confidence, giving each the most similar ground-truth object still free. Where no confidences or similarities tie, the result depends only on the objects and their similarities, not on the order of the objects or of the requested thresholds, and where they tie it is one of the possible greedy matchings. Exactly the detections left over are the false positives and exactly the evaluated ground-truth objects left over are the misses.",
  ["inputs", "configurations"],
  "All similarity matrices up to 3x3 (and 4x2) over a grid of values below, at and above thresholds, all score orderings, all subsets of thresholds in every order, all numbers of objects including none.",
  "The metric tests cannot even be imported without optional packages here and fix one scene with a few objects.",
  ["metrics/evaluator.py"],
  [("association", "metrics/evaluator.py:Evaluator._compute_agnostic_data_assoc/_compute_category_data_assoc"), ("similarity cache", "metrics/evaluator.py:Evaluator._make_similarity_cache")],
  ["Evaluator.evaluate_all"])

p("C16", "Average precision and precision-recall follow their definition",
  "For every list of detections with confidences and correct/incorrect outcomes, and every positive number of ground-truth objects not below the number of correct ones, the reported precision, recall and average precision equal the value of their definition, lie between 0 and 1, and do not depend on the order in which the detections are listed (detections of equal confidence count in some order consistent with the confidences). A perfect detector scores 1 and one without any correct detection scores 0. Cases without detections give the documented value, not an error.",
  ["inputs"],
  "All outcome vectors up to length 7 with all confidence orderings up to length 5 including ties, all ground-truth counts from the number of hits up to a bound, and all small per-threshold/per-category aggregations.",
  "Tests compute one curve.",
  ["metrics/evaluator.py", "metrics/utils.py"],
  [("average precision", "metrics/utils.py:compute_ap/compute_auc_ap"), ("precision-recall", "metrics/utils.py:compute_pr"), ("aggregation", "metrics/evaluator.py:Evaluator.shape_score/semantics_score")],
  ["compute_ap", "compute_pr", "compute_auc_ap", "Evaluator.shape_score", "Evaluator.semantics_score"])

p("C17", "Rotation error respects object symmetry and orientation conversions",
  "The rotation error between a detected and a true orientation is the smallest rotation angle between them over all orientations that the true object's symmetry declares equivalent in the object's own frame, so it is zero for equivalent orientations, never negative, at most a half turn, unaffected by rotating both by the same world rotation, and equal to the plain angle when there is no symmetry. The conversions between rotation matrices, quaternions and Euler angles used for it are inverse to each other up to representation and never fail on a valid rotation. Inputs are not modified.",
  ["inputs"],
  "All ordered pairs of the 24 cube rotations and a set of generic, near-identity, half-turn and gimbal-locked rotations, times every symmetry value per axis and every combination the symmetry rules allow.",
  "Tests evaluate a few fixed rotations with one symmetric axis.",
  ["metrics/utils.py", "metrics/evaluator.py"],
  [("symmetry reduction", "metrics/evaluator.py:Evaluator.symmetric_rot/cylindrical_symmetric_rot"), ("rotation error", "metrics/evaluator.py:Evaluator.rotation_error_1/pose_error"), ("conversions", "metrics/utils.py:matrix_to_quat/quat_to_matrix/quat_to_euler/euler_to_quat")],
  ["Evaluator.rotation_error_1", "Evaluator.pose_error", "sumo.metrics.utils"])

p("C18", "Scene evaluation is role-correct, bounded and order-independent",
  "For every track, evaluating a submission against ground truth with at least one evaluated object (for semantics, in a selected category) gives scores in their documented ranges equal to their documentation, and a submission identical to the ground truth gets the perfect value of every metric (of the perceptual score, if there are floors and everything is evaluated). Ground-truth objects marked as not evaluated, and categories not selected, influence no score as misses, submission and ground truth are never interchanged, and neither the order of objects (without ties) nor a common rigid motion of both scenes (keeping the vertical, for the perceptual score) changes the result. Evaluation changes neither scene nor the caller's settings, and the command-line tool reports the same numbers for the named scenes and rejects scenes of different tracks.",
  ["inputs", "configurations", "histories"],
  "All scenes of 0..2 ground-truth and 0..2 submitted objects per track over small alphabets of box, voxel or mesh, category, score, pose and evaluated flag, all object orders, all category subsets and several threshold settings.",
  "The metrics tests need packages that are not installed here and fix one sample scene.",
  ["metrics/evaluator.py", "metrics/bb_evaluator.py", "metrics/voxel_evaluator.py", "metrics/mesh_evaluator.py", "tools/evaluate-one.py"],
  [("evaluation driver", "metrics/evaluator.py:Evaluator"), ("track similarity and perceptual scores", "metrics/*_evaluator.py")],
  ["BBEvaluator.evaluate_all", "VoxelEvaluator.evaluate_all", "MeshEvaluator.evaluate_all", "tools/evaluate-one.py"])

p("C19", "Malformed input ends in a catchable error, never a crash or wrong data",
  "Reading a missing, truncated or malformed scene, model, voxel grid, image or point cloud raises an error that the caller can catch, of the documented kind where one is documented. It never terminates the process, never reads outside the data, and never returns partial or default data as if the input had been valid. A failed read leaves objects that already exist usable and unchanged.",
  ["inputs", "fault_sequences"],
  "Every file kind: missing file, empty file, every enumerated truncation point, every single structural deletion (tag, key, buffer, page, accessor) and a menu of wrong-typed or out-of-range values at each place.",
  "Tests only exercise well-formed files plus one or two missing ones.",
  ["semantic/project_scene.py", "semantic/project_object.py", "threedee/voxel_grid.py", "threedee/gltf_model.pyx", "threedee/gltf.pyx", "threedee/glb_converter.pyx", "threedee/point_cloud_ply.pyx", "images/rgbd_tiff.pyx", "images/multi_image_tiff.pyx"],
  [("exception translation at the native boundary", "threedee/gltf_model.pxd and siblings: except +"), ("validation", "semantic/project_object.py:_parse_xml")],
  ["ProjectScene.load", "GltfModel.load_from_glb", "GltfModel.load_from_gltf", "VoxelGrid.from_file", "MultiImageTiff.load", "PointCloudPly"])

p("C20", "Category colours agree in every lookup and image conversion",
  "Every category id of a colour table maps to the colour in its row, the category's name maps to that same colour, and the lookup table lists exactly these colours by id, whatever the order of the lookups and whatever other tables are in use. Whole-image conversion equals the per-pixel lookup for every image shape, integer type and memory layout, and leaves the image unchanged. Unknown ids and names are rejected with a key error, and an image with an id beyond the table with an index error, rather than given a wrong colour.",
  ["inputs", "configurations"],
  "All ids, all colours of the table and all their neighbours, all tables up to a small size, all images over the small alphabets, and ids just outside the table on both sides.",
  "Tests look up a few entries.",
  ["base/colored_category.pyx"],
  [("lookup tables", "base/colored_category.pyx:ColoredCategory")],
  ["ColoredCategory"])

p("C21", "Boxes are tight, and box operations agree with set geometry",
  "The bounding box of points, meshes or a model contains every vertex and touches one on each side. A box made from two opposite corners in any order has their componentwise minimum and maximum, and its corners, centre, volume, strict point containment, equality, approximate equality, XML form and mesh agree with treating it as a set of points, flat boxes included. Merging boxes gives the smallest box around all of them (a zero box for none), independent of their order, and operations do not change their operands.",
  ["inputs"],
  "All boxes with corners in a small lattice, all pairs of them, all lists up to a length, all probe points around them, and meshes and models with points on every lattice subset up to a size.",
  "Tests compare a few boxes.",
  ["threedee/box_3d.pyx", "threedee/compute_bbox.pyx", "metrics/utils.py"],
  [("box", "threedee/box_3d.pyx:Box3d"), ("bounding box", "threedee/compute_bbox.pyx:ComputeBbox")],
  ["Box3d", "ComputeBbox"])

p("C22", "Every legal glTF data layout reads as the data it encodes",
  "A model file reads as the same geometry whichever legal layout it uses: index width, byte offsets, interleaved or packed attributes, shared or separate views and buffers, absent optional fields, single-file or multi-file packaging. Packing a multi-file model (with at least one mesh) into one file keeps every mesh, image and buffer reference intact, each view aligned to four bytes. Data outside the model's buffers is never read.",
  ["inputs", "configurations"],
  "All combinations of index component type, view offset, accessor offset, stride, separate/shared buffers, optional attributes and packaging for a small two-primitive model.",
  "Tests load a few files produced by one writer.",
  ["threedee/GltfModel.cpp", "threedee/GltfModel.h", "threedee/glb_converter.pyx"],
  [("accessor decoding", "threedee/GltfModel.h:GltfAccessor"), ("packing", "threedee/glb_converter.pyx:GLBConverter")],
  ["GltfModel.load_from_gltf", "GltfModel.load_from_glb", "gltf2glb"])

p("C23", "Geometric similarity primitives equal their definitions",
  "The overlap of two point or voxel sets, nearest-neighbour distances, root-mean-square position and colour distances, and the box, voxel and mesh similarity measures equal the value of their definition for every input (boxes of positive volume), are symmetric where the definition is, lie within their documented range, and are maximal exactly for identical shapes. They do not depend on the order of points or on a common rigid motion, and do not modify their inputs. Empty inputs give the documented value or error.",
  ["inputs"],
  "All pairs of subsets of a small lattice, all orders for the smallest ones, thresholds at and around the lattice spacing, all lattice boxes under cube rotations.",
  "Tests compare two or three hand-made point sets, and are not importable here.",
  ["metrics/utils.py", "metrics/bb_evaluator.py", "metrics/voxel_evaluator.py", "metrics/mesh_evaluator.py"],
  [("points iou", "metrics/utils.py:points_iou"), ("nearest neighbours and rms", "metrics/utils.py:nearest_neighbors/points_rmsssd/color_rmsssd"), ("oriented box iou", "metrics/bb_evaluator.py:BBEvaluator._shape_similarity"), ("voxel iou", "metrics/voxel_evaluator.py:VoxelEvaluator._shape_similarity"), ("mesh iou", "metrics/mesh_evaluator.py:MeshEvaluator._shape_similarity")],
  ["sumo.metrics.utils", "BBEvaluator", "VoxelEvaluator", "MeshEvaluator"])

p("C24", "Only project objects can enter an object dictionary",
  "Whatever sequence of dictionary operations is applied, an object dictionary contains only project objects, and an attempt to store anything else is rejected and leaves the dictionary as it was. Otherwise it behaves like an ordinary dictionary with insertion order. Approximate comparison of dictionaries and of objects is reflexive, symmetric (away from the edge of the tolerance) and notices any difference in ids, categories, poses, symmetries, scores or evaluated flags.",
  ["histories", "inputs"],
  "All operation sequences to depth 3 over every mutating dictionary entry point with valid and invalid values and 2 keys; all pairs of objects differing in each single field.",
  "Tests insert one wrong value through one entry point.",
  ["semantic/project_object_dict.py", "semantic/project_object.py"],
  [("type constraint", "semantic/project_object_dict.py:__setitem__"), ("comparison", "semantic/project_object_dict.py:almost_equal")],
  ["ProjectObjectDict"])

p("C25", "Dataset download resumes to a complete, correct dataset after any failure",
  "Whatever transfer errors, truncated or damaged responses, process kills and re-runs occur, a listed archive is recorded as done (by its file in the cache folder) only if all of its contents have been extracted intact, and an archive is deleted only after that, or when it is damaged or cannot be read. Once the server and disk work again, a further run (two, where a damaged archive is left) completes the dataset, fetching exactly the listed archives that are neither recorded as done nor present, and never repeating completed ones. A failure affects only the archive concerned.",
  ["fault_sequences", "crash_points", "histories"],
  "All fault assignments for two or three archives over up to three attempts (bad status, connection error, short body, no length, damaged archive, failing disk), a kill before every file operation of a run and inside every write, followed by re-runs; several destination folder names.",
  "There are no tests of the download tool.",
  ["tools/download_sumo_datasets.py"],
  [("resume bookkeeping", "tools/download_sumo_datasets.py:get_zip_file_count"), ("download and unzip loops", "tools/download_sumo_datasets.py:download_zips_in_parallel/unzip_files_in_parallel")],
  ["download_zips_in_parallel", "unzip_files_in_parallel"])

p("C26", "Vectors survive as text, and vector helpers equal their definition",
  "Every vector of up to sixteen finite numbers written as text, under any print options, reads back as exactly the same numbers in its own precision; a text that is not exactly the requested count of comma-separated numbers is refused with ValueError. Constructors hold the given coordinates in their documented precision, unitize gives the vector of length one in the same direction (the null vector itself, norm within the range of double), and on_left tells the side of a line for every normal, counting the line itself as left. None of them modifies its inputs.",
  ["inputs", "configurations"],
  "All pairs and triples of adversarial numbers, powers of two over the whole range, every print option; all short texts of number and non-number parts; all lattice vectors at eight scales and all lattice lines and points.",
  "Tests try one vector or line per helper and never the text form.",
  ["base/vector.pyx"],
  [("text form", "base/vector.pyx:vector_to_text/vector_of_text"), ("constructors", "base/vector.pyx:Vector2/Vector3/Vector4/Matrix3"), ("helpers", "base/vector.pyx:unitize/on_left")],
  ["sumo.base.vector"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
