#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, kept readable)."""
import json, os
P = []
S = "sumo-api/sumo/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": [f if f.startswith("tools/") else S + f for f in files],
         "mechanism": [{"name": n, "where": (w if w.startswith("tools/") else S + w)} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "16-bit inverse-depth codec: zero, clamp, monotone, half-step accurate",
 "For every near plane > 0: code 0 decodes to infinity, code 65535 to the near plane and code c to near*65535/c (to float32 accuracy), and encoding any decoded code with the same near plane gives that code back. "
 "Encoding maps unknown (0) and infinite depth to 0, every depth at or inside the near plane to 65535, and any other depth d to the integer nearest near*65535/d (either neighbour within float32 rounding of a tie), so a larger depth never gets a larger code. "
 "The whole-image conversions apply exactly this per pixel, with unchanged shape and the documented element type.",
 ["inputs"], "all float32 depths >= 0, all 65536 codes, all near planes and all image sizes",
 "Tests convert a handful of depths with one near plane; the codec is a numeric function over 2^32 depths and 2^16 codes, whose round trip depends on float32 rounding.",
 ["geometry/inverse_depth.pyx"],
 [("depth_of_inverse_depth / inverse_depth_of_depth", "geometry/inverse_depth.pyx"), ("inverse_depth_map_of_depth_image / depth_image_of_inverse_depth_map", "geometry/inverse_depth.pyx")],
 ["return values of the conversion functions"])

prop("C02", "Legacy 8-bit inverse depth converts consistently to depth and to 16 bit",
 "An 8-bit code c decodes to near*255/c, with 0 meaning infinite depth; encoding depth to 8 bit sends 0 and infinity to 0, depths inside the near plane to 255, and others to the nearest code. "
 "Upgrading a legacy 8-bit image to the current 16-bit representation yields, for every code and every legacy near plane, the 16-bit code of the same depth under the current default near plane, with 0 staying 0. "
 "The whole-image versions do this for each pixel independently.",
 ["inputs"], "all 256 codes, float32 depths, legacy near planes and image sizes",
 "Tests convert one small image with the two default near planes; a mixed-up near plane or a width mistake shows only at other values.",
 ["geometry/inverse_depth.pyx"],
 [("depth_of_uint8_inverse_depth / uint8_inverse_depth_of_depth", "geometry/inverse_depth.pyx"), ("inverse_depth_from_uint8 / uint16_of_uint8_inverse_depth_map", "geometry/inverse_depth.pyx")],
 ["return values of the conversion functions"])

prop("C03", "Multi-page RGBD TIFF: what is saved is what is loaded, bad input is refused",
 "Saving any valid image set (colour and range, optionally category and instance) and loading the file gives back identical colour, category and instance images, and each range value as its 16-bit inverse-depth code under the near plane used for saving represents it; the near plane is stored in the file, so loading needs no parameter. "
 "Colour and range images are required; images with a wrong element type or number of dimensions, unknown pages, and unreadable files are refused with an exception. "
 "Constructing a 360 image refuses component images of the wrong type or dimensions.",
 ["inputs"], "all image sizes, pixel values, page subsets and near planes",
 "Tests round-trip one fixed image with default settings; per-page handling, stride and near-plane metadata matter for other sizes, page subsets and near planes.",
 ["images/RgbdTiff.cpp", "images/rgbd_tiff.pyx", "images/rgbdci_360.pyx", "images/rgbd_360.pyx", "images/multi_image_tiff.pyx", "opencv/wrap.pyx"],
 [("writeRgbdTiff / writeImage / writeMetadata", "images/RgbdTiff.cpp"), ("readRgbdTiff / readImage / readMetadata / readTiffPageType", "images/RgbdTiff.cpp"), ("save / load / _validate", "images/rgbd_tiff.pyx"), ("Rgbdci360, Rgbd360, MultiImageTiff constructors, save, load", "images/")],
 ["the loaded images compared with the saved ones", "exceptions raised by save/load/constructors"])

prop("C04", "Cube-map back-projection places every pixel on its face ray at its range",
 "Each pixel of the six square faces (back, left, front, right, up, down, side by side) back-projects onto the corresponding face of the cube [-1,1]^3 (distance 1 along that face's axis), faces meet without gaps at shared edges, and the right image border wraps to the start of the back face. "
 "A point cloud made from an image has, in row-major pixel order, one point per pixel with finite positive range, lying on that pixel-centre ray at Euclidean distance equal to the range and carrying that pixel's colour. "
 "With the all-points option every pixel gives a point, invalid ones being the origin with colour black.",
 ["inputs"], "all face sizes, pixels, ranges (including zero, negative and infinite) and colours",
 "Tests check a few pixels of one image size; orientation, offsets and ordering are geometric facts over every pixel and side length.",
 ["images/CubeMap.h", "images/Rgbdci360.cpp", "images/rgbdci_360.pyx"],
 [("CubeMap::unproject / sensorOfPixel / pixelCoordinates", "images/CubeMap.h"), ("pointFromRange / createPointCloud", "images/Rgbdci360.cpp"), ("Rgbdci360.create_point_cloud", "images/rgbdci_360.pyx")],
 ["points and colours of the created cloud", "returned 3D point of back-projection"])

prop("C05", "Rotations and poses satisfy the rigid-motion algebra",
 "Composing poses and applying the result equals applying them one after the other; inverse undoes a pose on either side; mapping a point to another frame and back is the identity; the 3xN versions act column by column; and the matrix forms agree with the operators. "
 "Axis rotations, axis-angle and the ENU and Maya camera constructors yield orthonormal matrices of determinant 1 with the documented sense: axis-angle fixes its axis and agrees with the axis rotations, and cameras apply yaw, then pitch, then roll to the documented default. "
 "Operations never modify their operands.",
 ["inputs"], "all rotations, translations, points, point arrays of any length, and angles",
 "Tests use a few fixed poses and angles; these are algebraic identities over all real inputs.",
 ["geometry/rot3.pyx", "geometry/pose3.pyx", "base/vector.pyx"],
 [("Rot3 operators and constructors", "geometry/rot3.pyx"), ("Pose3.compose / inverse / transform_*", "geometry/pose3.pyx")],
 ["returned matrices, vectors and poses"])

prop("C06", "Pose, rotation and box interchange formats round-trip and reject bad input",
 "Writing a rotation, pose or box to its XML, JSON, quaternion-JSON or 3x4-matrix form and reading it back reproduces it (exactly, or to the printed or quaternion precision), and rotations read from a quaternion are proper rotations invariant to the quaternion's scale and sign. "
 "Reading follows the documented layout: rotation columns, translation and corner vectors keep their roles whatever the order of the child elements. "
 "XML with a wrong or missing tag or a vector of the wrong length is refused with an exception instead of yielding a partial object.",
 ["inputs", "programs"], "all poses, rotations and boxes, and all element orders and omissions in the documents",
 "Tests round-trip one or two values; row/column and w/x/y/z mix-ups can cancel on symmetric examples and malformed documents are barely covered.",
 ["geometry/rot3.pyx", "geometry/pose3.pyx", "geometry/quaternion.pyx", "threedee/box_3d.pyx", "base/vector.pyx"],
 [("Rot3.from_xml/to_xml/from_json/to_json", "geometry/rot3.pyx"), ("Pose3.from_xml/to_xml/from_json/to_json/from_surreal/to_surreal/FromMatrix34", "geometry/pose3.pyx"), ("Quaternion", "geometry/quaternion.pyx"), ("Box3d.from_xml/to_xml", "threedee/box_3d.pyx")],
 ["objects read back", "exceptions"])

prop("C07", "Object symmetry accepts exactly the realizable combinations and round-trips",
 "An object symmetry can be constructed, from symmetry types, strings or XML, exactly when its per-axis types are, in any axis order, one of the nine documented combinations (no symmetry; one two-fold; one four-fold; two two-fold and one four-fold; three four-fold; three two-fold; one cylindrical; one cylindrical and two two-fold; three spherical); everything else is refused with an exception. "
 "Equality and inequality are complementary and agree with per-axis comparison, and string or XML output read back gives an equal symmetry. "
 "Missing or misspelt symmetry tags or values are refused with an exception.",
 ["inputs"], "all combinations of per-axis types and all XML documents",
 "Tests try a few combinations; the input space is finite but not enumerated, and inequality and error paths are never exercised.",
 ["semantic/object_symmetry.py"],
 [("ObjectSymmetry.is_valid / __init__ / __eq__ / __ne__ / from_strings / from_xml / to_xml", "semantic/object_symmetry.py")],
 ["constructed objects, comparison results and exceptions"])

prop("C08", "Boxes are ordered, bounding boxes contain everything and are tight",
 "A box built from any two opposite corners, in either order, has the component-wise minimum and maximum as its corners, the product of its extents as volume, their midpoint as centre, and its eight distinct corner combinations in the documented order; containment excludes the boundary. "
 "Merging boxes, and the bounding box of a point array, a mesh or a whole glTF model, contains every input and is the smallest such box, independent of input order; empty input gives the zero box. "
 "Equality and almost-equality compare both corners.",
 ["inputs"], "all corners, points, meshes and lists of boxes of any length",
 "Tests use single small boxes; containment and tightness are for-all statements over any number of points and boxes.",
 ["threedee/box_3d.pyx", "threedee/compute_bbox.pyx"],
 [("Box3d", "threedee/box_3d.pyx"), ("Box3d.merge", "threedee/box_3d.pyx"), ("ComputeBbox", "threedee/compute_bbox.pyx")],
 ["corners, volume, centre and comparison results"])

prop("C09", "A box converts to a closed, correctly oriented twelve-triangle mesh",
 "The mesh of any box has 24 vertices, all at box corners with each corner used by three faces, and 12 triangles that tile its six sides exactly; every vertex normal is the axis direction of its side. "
 "With outward orientation triangle winding and normals point out of the box, with inward orientation both point in, and winding always agrees with the stored normals. "
 "The textured version has the same geometry, one texture coordinate per vertex, and the given colour in every texture pixel.",
 ["inputs"], "all boxes with positive extents, both orientations and all colours",
 "Tests compare one unit box; winding and tiling must hold for every box and both orientations.",
 ["threedee/box_3d.pyx"],
 [("Box3d.to_mesh / to_textured_mesh / _to_mesh_helper / corners", "threedee/box_3d.pyx")],
 ["indices, vertices, normals and texture of the mesh"])

prop("C10", "A voxel grid is exactly the set of voxels hit by all points ever added",
 "After any sequence of point insertions the occupied voxels are exactly the set of cells floor((p - min_corner)/voxel_size) of all points added so far, without duplicates, whatever the order, batching or repetition of insertions. "
 "Voxel centres lie half a voxel inside their cells, so every added point is within half a voxel of some centre on each axis, and bounds is the smallest box of whole voxels containing them; a batch containing a point below the minimum corner is refused and leaves the grid unchanged, and non-positive voxel sizes are refused. "
 "Saving and loading reproduces voxels, voxel size and minimum corner, later insertions into a loaded grid behave as on the original, and unreadable or unwritable files raise an I/O error.",
 ["inputs", "histories"], "all insertion histories, voxel sizes, minimum corners and points",
 "Tests insert one or two batches whose extents grow in both axes together; the set semantics must hold over every insertion history.",
 ["threedee/voxel_grid.py"],
 [("VoxelGrid.add_points / voxel_centers / bounds / save / load", "threedee/voxel_grid.py"), ("_linearize_voxels / _vectorize_voxels", "threedee/voxel_grid.py")],
 ["voxel_centers(), bounds(), exceptions"],
 state=[("occupied voxel indices", "N x 3 array of occupied cells, no duplicates", "threedee/voxel_grid.py")])

prop("C11", "Merging, replacing and renumbering meshes preserves geometry",
 "Merging a mesh with another that shares its first k vertices keeps all existing triangles and vertices, appends the other's non-shared vertices (with normals and texture coordinates) and triangles, so every triangle of both meshes still has the same corner positions, in order, and every index stays valid. "
 "Replacing geometry leaves exactly the other mesh's indices, vertices, normals and texture coordinates, keeping the material; renumbering the leading block of vertices by a permutation permutes the vertex data and remaps the indices so that every triangle keeps its corner positions, normals and texture coordinates. "
 "The other mesh is never changed, and vertices, normals and texture coordinates stay equally long.",
 ["inputs"], "all meshes, numbers of common vertices and renumbering permutations",
 "Tests merge fixed cubes; index arithmetic must hold for any mesh size and number of common vertices.",
 ["threedee/Mesh.cpp", "threedee/TexturedMesh.cpp", "threedee/mesh.pyx", "threedee/textured_mesh.pyx"],
 [("Mesh::merge / replaceGeometry", "threedee/Mesh.cpp"), ("TexturedMesh::merge / replaceGeometry / renumber", "threedee/TexturedMesh.cpp"), ("Mesh, TexturedMesh wrappers; merge_quadrant_meshes", "threedee/textured_mesh.pyx")],
 ["indices, vertices, normals and uv coordinates after the operation"])

prop("C12", "Mesh clean-up removes exactly the offending triangles and nothing else",
 "Long-edge clean-up keeps, in order, exactly the triangles all of whose three edges are no longer than the threshold. "
 "Origin clean-up keeps, in order, exactly the triangles none of whose corners is at the origin. "
 "Neither changes vertices, normals or texture coordinates, and doing either twice is the same as once.",
 ["inputs"], "all meshes and thresholds",
 "Tests use one mesh and threshold; each edge and each corner of each triangle matters separately.",
 ["threedee/Mesh.cpp", "threedee/Mesh.h", "threedee/mesh.pyx"],
 [("Mesh::cleanupLongEdges / cleanupEdgesToOrigin", "threedee/Mesh.cpp"), ("triangle_iterator", "threedee/Mesh.h")],
 ["indices and vertices after clean-up"])

prop("C13", "Face and vertex normals are the unit geometric normals of the triangles",
 "There is one face normal per triangle: the unit vector perpendicular to the triangle on the side from which its corners appear counter-clockwise. "
 "Estimated vertex normals, one per vertex, are the normalized sum of the normals of exactly the faces using that vertex, zero for unused vertices, and do not depend on which other vertices exist. "
 "The example meshes are closed boxes with the requested side length whose normals face the requested way.",
 ["inputs"], "all triangle meshes and example sizes",
 "Tests check one cube; sign, indexing and normalization must hold for all triangles.",
 ["threedee/Mesh.cpp", "threedee/mesh.pyx"],
 [("Mesh::CalculateFaceNormals / EstimateNormals / Example", "threedee/Mesh.cpp"), ("Mesh.calculate_face_normals / estimate_normals / example", "threedee/mesh.pyx")],
 ["returned normal arrays"])

prop("C14", "A glTF model returns the meshes that were added to it and stays consistent",
 "Adding plain or textured meshes to a model, in any order, and extracting primitive i gives back the i-th mesh's indices, vertices, normals and, if textured, texture coordinates and texture images, exactly; listing the primitive meshes gives the same in the same order, and saving as glTF or GLB and loading gives the same geometry. "
 "Adding never changes previously added meshes, every internal cross reference (node, mesh, accessor, buffer view, buffer, texture, image, material) points to an existing element within bounds, and accessor bounds equal the component-wise minimum and maximum of their data. "
 "A deep copy is independent of the original, and out-of-range primitive numbers are refused.",
 ["inputs", "histories"], "all sequences of mesh additions of any sizes, and save/load after any of them",
 "Tests add one or two example cubes; byte offsets, counts and references depend on the sizes and sequence of what was added before.",
 ["threedee/GltfModel.cpp", "threedee/GltfModel.h", "threedee/gltf_model.pyx", "threedee/gltf.pyx"],
 [("GltfModel::addPrimitiveMesh / addTexturedPrimitiveMesh / addDataToBuffer / extract*", "threedee/GltfModel.cpp"), ("GltfModel wrapper, save_as_gltf, save_as_glb, deepcopy", "threedee/gltf_model.pyx")],
 ["extracted meshes, counts, saved JSON"])

prop("C15", "GLB packaging keeps every byte of every buffer and image reachable",
 "Converting a glTF file with any number of external buffers and images produces one GLB file with the right magic, version 2, total length equal to the file size, and JSON and binary chunks whose declared lengths are multiples of four and match their contents. "
 "Every original buffer view, read from the GLB at its new offset, yields the same bytes as before, and every image becomes a buffer view containing exactly that image's bytes (up to padding), with the right media type and no external reference left. "
 "Everything else in the JSON is unchanged.",
 ["inputs"], "all numbers and sizes of buffers, buffer views (with and without offset) and images",
 "Tests convert one file with one buffer; offset accounting only matters with several buffers, unaligned sizes and images.",
 ["threedee/glb_converter.pyx"],
 [("gltf2glb / BodyEncoder.add_to_body / GlbEncoder.export_string", "threedee/glb_converter.pyx")],
 ["the bytes of the produced file"])

prop("C16", "Scene, object and dictionary persistence loses and confuses nothing",
 "Saving a scene (or a dictionary of objects, or one object) and loading it reproduces its type and settings and, for every object, its id, category, detection score, evaluated flag, symmetry, bounds, pose and geometry, each under its own id, for any number of objects of any of the three types. "
 "The stored bounds are those of the geometry, a dictionary refuses anything that is not a project object, and saving over an existing project is refused. "
 "Documents with a wrong root tag, no project type or elements section, an unknown project type, or an object without id are refused with an exception, and an object without bounds, pose or other optional elements loads with the documented defaults.",
 ["inputs", "histories"], "all scenes of the three types, any number of objects and any attribute values, and all document defects",
 "Tests save and load one example with default attributes; field swaps, cross-object mix-ups and malformed documents are not covered.",
 ["semantic/project_scene.py", "semantic/project_object_dict.py", "semantic/project_object.py"],
 [("ProjectScene.save / load", "semantic/project_scene.py"), ("ProjectObjectDict", "semantic/project_object_dict.py"), ("ProjectObject.save / load / _to_xml / _parse_xml", "semantic/project_object.py")],
 ["loaded objects and exceptions"])

prop("C17", "Re-posing an object or a scene changes poses only, by left composition",
 "Transforming an object by a pose gives a new object whose pose is the transform composed with the old pose, with every other attribute (id, type, bounds, category, symmetry, score, evaluated flag, geometry) unchanged. "
 "Transforming a scene does so for every element and keeps its type, its settings and its kind of container, so the result can be saved, compared and transformed again; two transforms in a row equal their composition. "
 "The original object or scene is not modified.",
 ["inputs", "histories"], "all objects, scenes, transforms and sequences of transforms",
 "Tests transform one object once; loss of attributes or settings and the composition law are not checked.",
 ["semantic/project_object.py", "semantic/project_scene.py"],
 [("ProjectObject.transform_pose", "semantic/project_object.py"), ("ProjectScene.transform_pose", "semantic/project_scene.py")],
 ["attributes of the transformed and the original objects"])

prop("C18", "Track conversion preserves objects and only drops geometric detail",
 "Converting a project to an allowed target type (meshes to voxels or bounding box, voxels to bounding box) yields a project of that type and settings with exactly the same object ids, each object keeping its pose, category, symmetry, score and evaluated flag. "
 "Bounding-box elements carry the tight bounds of the source geometry and no mesh or voxels; voxel elements carry the voxelization of their own mesh in object coordinates and its bounds. "
 "Conversions that would add detail, and unknown types, are refused, and the input project is not modified.",
 ["inputs", "configurations"], "all projects and all pairs of source and target type",
 "Tests convert one small project; attribute loss and refused combinations are not enumerated.",
 ["semantic/project_converter.py"],
 [("ProjectConverter.run / convert_element", "semantic/project_converter.py")],
 ["converted project"])

prop("C19", "Surface sampling: points lie on the surface, in number proportional to area",
 "Sampling a mesh or model gives, for every triangle, the number of points its area times the density calls for (rounded down, but at least one), and every point lies on that triangle (inside its edges) and carries the correspondingly interpolated colours of its corners: the texture pixel at the corner's texture coordinates (u along the width, v along the height), or grey without texture. "
 "Voxelizing a model gives a grid whose occupied voxels each contain a sampled surface point and whose bounds contain every sampled point, anchored at the samples' minimum corner with the requested voxel size. "
 "Empty models, empty meshes and degenerate triangles never cause a failure or undefined values.",
 ["inputs"], "all meshes, densities and random draws",
 "Tests sample one cube and check counts; barycentric and texture indexing must hold for every triangle, draw and texture size.",
 ["threedee/model_sampler.pyx", "threedee/voxelizer.pyx", "metrics/mesh_evaluator.py"],
 [("ModelSampler.run / _sample_mesh", "threedee/model_sampler.pyx"), ("Voxelizer.run", "threedee/voxelizer.pyx"), ("sample_element / sample_mesh", "metrics/mesh_evaluator.py")],
 ["sampled points and colours, voxel grids"])

prop("C20", "Point clouds keep every point paired with its own colour",
 "A cloud returns exactly the points and colours it was given, in order; merging, adding or appending clouds concatenates both in the same order, thinning keeps a subset of the original points each with its own colour, and rigid transforms move each point by the pose while keeping order and colours. "
 "A coloured cloud always has exactly one colour per point, so combining coloured with uncoloured clouds is refused or yields an uncoloured cloud. "
 "Mapping to another frame and back restores the points, and operands other than the one appended to are unchanged.",
 ["inputs", "histories"], "all clouds (coloured or not, of any size) and sequences of operations",
 "Tests use small example clouds; pairing must survive arbitrary operation sequences including mixed coloured/uncoloured ones.",
 ["threedee/point_cloud.pyx", "threedee/PointCloud.h", "base/vector.pyx"],
 [("PointCloud append / merge / register / thin / transform_*", "threedee/point_cloud.pyx"), ("PointCloud::PointCloud / append", "threedee/PointCloud.h")],
 ["points(), colors(), num_points(), colored()"])

prop("C21", "Data association is a one-to-one matching, by similarity, above threshold",
 "At every similarity threshold, detections and ground-truth elements are matched one to one, only at pairs whose similarity reaches the threshold, and greedily in order of decreasing detection score: no pair reaching the threshold is left with both elements free, and each detection gets the most similar ground-truth element that better-scored detections left. "
 "Every detection is accounted for exactly once, with its own score and, when matched, the ground-truth id, similarity and evaluated flag of its partner. "
 "Per-category association is the same matching restricted to elements of one category, and raising the threshold never adds matches that were not possible before.",
 ["inputs", "configurations"], "all sets of detections and ground-truth elements, similarities, categories and thresholds",
 "Tests use tiny scenes and are not even runnable here; matching properties are over all similarity matrices.",
 ["metrics/evaluator.py"],
 [("_make_similarity_cache / _compute_agnostic_data_assoc / _compute_category_data_assoc", "metrics/evaluator.py"), ("Corr / sort_corrs_by_similarity", "metrics/evaluator.py")],
 ["association tables"])

prop("C22", "Precision-recall and average precision follow their definition",
 "Precision and recall at each detection, taken in order of decreasing score, equal true positives over detections so far and true positives over the number of ground-truth elements; all values lie in [0,1], recall never decreases, and interpolated precision never increases with recall. "
 "Average precision lies in [0,1], is 1 when every ground-truth element is matched before any false positive, is 0 without matches, and (for distinct scores) depends only on the ranking induced by the scores, not on input order or score scale. "
 "Turning a false positive into a true positive never lowers it, and inputs are not modified.",
 ["inputs"], "all match/score vectors, ground-truth counts and recall sample sets",
 "Tests check a few hand-computed curves; range, monotonicity and order-independence are for-all facts.",
 ["metrics/utils.py"],
 [("compute_pr / compute_ap / compute_auc_ap", "metrics/utils.py")],
 ["returned precision, recall and AP"])

prop("C23", "Track scores combine matches correctly and stay in range",
 "Shape, semantics and perceptual scores lie in [0,1] and pose and root-mean-square errors are non-negative; a submission identical to the ground truth (whose elements are well apart) gets shape and semantics scores of 1, zero pose errors, and a perceptual score of 1 if it has floors and all are evaluated. "
 "Submission and ground truth keep their roles in all three tracks, averages are over the configured thresholds and over the categories or matched elements present, and unmatched, extra and non-evaluated elements enter exactly as documented: non-evaluated ground truth neither counts as missed nor rewards or penalizes the detection matched to it. "
 "Settings not given take their defaults, and the data of neither input scene is modified.",
 ["inputs", "configurations"], "all pairs of submissions and ground truths in the three tracks and all settings",
 "The metric tests are not runnable in this environment and use a few fixed scenes; aggregation and role errors show only on asymmetric inputs.",
 ["metrics/evaluator.py", "metrics/bb_evaluator.py", "metrics/voxel_evaluator.py", "metrics/mesh_evaluator.py"],
 [("Evaluator.shape_score / pose_error / semantics_score / perceptual_score", "metrics/evaluator.py"), ("BBEvaluator, VoxelEvaluator, MeshEvaluator", "metrics/")],
 ["returned scores"])

prop("C24", "Rotation error is the geodesic angle minimized over the object's symmetries",
 "For an object without symmetry the rotation error equals the angle of the relative rotation: zero exactly for equal rotations, symmetric in detection and ground truth, in [0, pi], and unchanged when both are rotated by a common rotation on the left. "
 "For an object with two-fold, four-fold or cylindrical symmetry about any axis the error is the smallest over the rotations the symmetry allows, so composing the detection with any of these leaves it at that minimum and gives zero for a detection equal to the ground truth up to symmetry. "
 "It never exceeds the error computed without symmetry.",
 ["inputs"], "all pairs of rotations and all valid symmetries",
 "Tests check a handful of angles about one axis; invariance is over the rotation group.",
 ["metrics/evaluator.py"],
 [("Evaluator.rotation_error_1 / symmetric_rot / cylindrical_symmetric_rot", "metrics/evaluator.py")],
 ["returned error"])

prop("C25", "Quaternion, Euler-angle and matrix conversions agree and invert each other",
 "For every rotation matrix, converting to a quaternion gives a unit quaternion that converts back to the same matrix, in every branch (any trace sign and dominant diagonal entry); a unit quaternion and its negative give the same proper rotation. "
 "Euler angles convert to the same rotation by quaternion or by matrix, and converting a rotation to Euler angles and back reproduces it, including at and next to vertical pitch. "
 "Results are finite for every valid input.",
 ["inputs"], "all rotations, unit quaternions and Euler angles",
 "Tests try a few angles; branch selection and the vertical-pitch case need the whole rotation group.",
 ["metrics/utils.py"],
 [("matrix_to_quat / quat_to_matrix / quat_to_euler / euler_to_quat / euler_to_matrix / matrix_to_euler", "metrics/utils.py")],
 ["returned matrices, quaternions and angles"])

prop("C26", "Point-set overlap and symmetric surface distance follow their definitions",
 "The overlap of two point sets is the number of points of either set that have a neighbour in the other within the threshold, over the number of all points: it lies in [0,1], is 1 for identical sets, 0 for sets farther apart than the threshold, and is symmetric in its arguments. "
 "Nearest-neighbour distances are the true minimum distances in both directions. "
 "The root-mean-square symmetric surface distance and colour distance average over all matched pairs with evaluated ground truth and all thresholds, are non-negative, and zero when the geometry (and colours) of every pair agree.",
 ["inputs"], "all finite non-empty point sets, boxes and thresholds",
 "Tests use a few fixed point sets and are not runnable here; these are for-all facts over point sets of any size.",
 ["metrics/utils.py"],
 [("points_iou / nearest_neighbors / points_rmsssd / color_rmsssd", "metrics/utils.py")],
 ["returned values"])

prop("C27", "Category colours: one consistent mapping by id, by name and in images",
 "For every category file, looking up the colour of a category by id, by name, or through the image conversion gives the colour listed for it in the file, and unknown ids or names are refused with a key error. "
 "An index image converts to a colour image of the same height and width in which every pixel has its category's colour. "
 "The lookup table has one row per category. A file that has rows but lacks the category, evaluated or colour column, a row that lacks a colour, or a colour that is not a list of integers is refused with an exception.",
 ["inputs"], "all category files and index images",
 "Tests use one fixed file; boundary ids, file order and malformed files are not covered.",
 ["base/colored_category.pyx"],
 [("ColoredCategory", "base/colored_category.pyx")],
 ["returned colours and exceptions"])

prop("C28", "PLY files keep every point and colour",
 "Writing points, or points with colours, to a PLY file and reading it back gives the same points in the same order to float32 precision. "
 "Colours are written with their own points. "
 "Unreadable files raise an exception.",
 ["inputs"], "all point arrays",
 "Tests round-trip one small array.",
 ["threedee/point_cloud_ply.pyx", "threedee/point_cloud_ply_c.cpp"],
 [("readPoints / writePoints / writePointsAndColors", "threedee/point_cloud_ply_c.cpp"), ("read_points / write_points / write_points_and_colors", "threedee/point_cloud_ply.pyx")],
 ["points read back"])

prop("C29", "Interrupted dataset downloads resume without losing or redoing files",
 "After an interruption at any point, running the download tool again fetches and unpacks exactly the files not already complete. "
 "A file that was only partially transferred is never treated as complete, and completed files are not fetched again. "
 "The requested selection of files, and nothing else, is fetched.",
 ["crash_points", "fault_sequences"], "all interruption points, file lists and worker schedules",
 "There are no tests for the tool; the property is about crash points and network faults.",
 ["tools/download_sumo_datasets.py"],
 [("download_zips_in_parallel / unzip_files_in_parallel / remove_existing_files", "tools/download_sumo_datasets.py")],
 ["files in the target folder"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
