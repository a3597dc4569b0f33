"""Per property: how it is decided (text for DESIGN.md)."""
HOW = {
"C01": "Proof. The scalar conversions over every depth (0 and infinity included), code and near plane, and the image conversions over any size: every arithmetic operation and conversion is a rounding function of its exact result (relative error at most 2^-24, monotone), from which the nearest code, the round trip of all codes and the order of codes follow. Overflow and underflow are left out. The compiled code is evaluated over all 65536 codes for several near planes.",
"C02": "Proof. The 8-bit conversions and the upgrade to 16 bit over every code, depth, near plane and image size, with the same rounding contract as C01.",
"C03": "Bounded: generated image sets saved and loaded through the compiled library; malformed pages and files. libtiff/OpenCV are beyond a contract prover here.",
"C04": "Proved over CubeMap.h and Rgbdci360.cpp (clang AST) and the Cython wrapper: the contract of unproject gives, for each of the six faces and any real pixel position in it, the documented point of the cube face (index and exception obligations included); the shared edges are lemmas over those contracts; size, pixelCoordinates and the right border too. createPointCloud, against the contract of unproject (some point of the cube for each pixel), for images of any side: exactly the pixels with finite positive range in row-major order (counts and order by the selection contract), each on its ray (collinear, in front), at the distance of its range, with its colour; with all points the others are black origins. Infinity is a number above every finite input; NaN and other image shapes bounded on the compiled code.",
"C05": "Proof. Symbolic rotations (unit quaternions), translations, angles as (cos, sin) pairs; operators, constructors, 3xN versions (symbolic N), matrix forms, and frame conditions on operands.",
"C06": "Proof. XML/JSON/quaternion/3x4 readers and writers; XML trees are real ElementTree objects whose texts carry symbolic numbers; vectors of any other length (symbolic) and each wrong or missing tag are refused.",
"C07": "Proof. Complete case analysis over all 4^3 symmetry triples and orders, texts and XML; misspelt values as an opaque text different from the four names.",
"C08": "Proof. Constructor over all corner orders and input forms; containment, volume, centre, corner order, equality and almost-equality symbolically; merge, point arrays, mesh and model boxes for any number of boxes, points and meshes (bounds every element and is attained, which characterises the smallest box and makes it order independent); from_meshes uses from_mesh by contract.",
"C09": "Proof. Both orientations and the textured version executed on symbolic corners (the loops are concrete); combinatorial tiling, oriented area of each triangle equal to half its side times the stored normal, colour of each texture pixel for every colour shape.",
"C10": "Proof. Representation invariant (voxel rows are different, non-negative, inside the x and y sizes) and the set of cells: established by the constructor and preserved by add_points from any state satisfying it, for any number of points, so every history follows by induction; the two index conversions proved against their contracts (uniqueness of division as a lemma), which add_points then uses; centres, bounds, save/load and failing files. Replay: insertion histories against an exact set oracle.",
"C11": "Proved over the C++ classes (clang AST) and their Cython wrappers for any number of triangles, vertices and shared vertices, plain and textured: merge keeps the existing triangles and data and appends the other's, corners keep position, normal and texture coordinate, indices stay valid; replacing gives exactly the other's data; renumber (any injective renumbering of a leading block into a block of any size) permutes the data - the store a[r[i]] = b[i] is summarised by its last writer - and maps the block's indices; merge_quadrant_meshes for any number of triangles per quadrant; material and textures are kept; the other mesh is unchanged. Known finding renumber-partial: indices behind a smaller block.",
"C12": "Proved over the C++ classes (clang AST) and their Cython wrappers, for any number of triangles and vertices: exactly the triangles with no edge longer than the threshold (no corner at the origin) stay, in order, with the same corners; vertices, normals and texture coordinates are untouched; a second clean-up changes nothing. The comparison of norms is over real numbers; corners within 1e-9 of the origin are left open.",
"C13": "Proved over the C++ class (clang AST) and its Cython wrapper, for any number of triangles and vertices: one face normal per triangle, the unit vector along the cross product of its edges (Eigen normalized() by its contract); the vertex normal is the unit vector along the sum over faces of the face normals at corners equal to the vertex, which mentions no other vertex, and zero for unused vertices; the example meshes (any positive length) and cubes (any image size) are closed boxes facing the requested way.",
"C14": "Bounded: sequences of added meshes, saved and loaded, all references and bounds walked.",
"C15": "Proof. gltf2glb with BodyEncoder and GlbEncoder for any number of buffers, buffer views and images and files of any length: byte strings are a length and a byte at each position, the document is ghost state (the arrays, which members each entry has, everything else), the offset of each file is a ghost sum. Loop invariants: the body holds the first files at their offsets and the entries before are packed, the later ones untouched; an arbitrary byte of an arbitrary file follows to its place in the output. Concludes with the chunk structure, the views\' bytes, the images\' views and media types, and that nothing else is written. json, struct, mimetypes and files are contracts.",
"C16": "Proof. Save then load for any number of objects (symbolic), each type, symbolic ids/categories/scores/flags and settings; XML documents and files are ghost state with the write/read-back contract; documents in other orders, with unknown tags, without optional elements (all subsets), and every document fault; refused overwriting leaves the files alone. Pose/box/symmetry XML and geometry files by their contracts (C06, C07, C10, C14).",
"C17": "Proof. Object and scene transform for any number of symbolic objects of each type, composition law, container type, settings, and a frame condition on the originals.",
"C18": "Proof. Every allowed pair for any number of symbolic objects; refused pairs and unknown type texts; bounds and voxelization by contract (C08, C10, C19); Voxelizer.run passes exactly the sampled points into a grid that starts at their smallest coordinates.",
"C19": "Bounded: generated meshes and textures; every sample's triangle and colour verified.",
"C20": "Proved over the C++ class (clang AST) and its Cython wrapper, for clouds of any size, coloured or not: the constructor keeps points and colours, append/merge/+/sum concatenate both (or refuse, with colours on one side only), thinning selects each point with its own colour (numpy.random.randint by its range), transform_from/to move every point and restore it, operands unchanged. Since each operation yields such a cloud again, sequences follow. register is proved for up to two clouds (any size); more, and self-append, bounded on the compiled code.",
"C21": "Proof. Loop invariants for every loop of the similarity cache, the greedy matcher and its restriction to categories, over any number of detections, ground-truth elements, categories and thresholds (ties included): which pairs are removed below a threshold, who is matched after each detection, and that no candidate is left over and none better was free; the obligations conclude with the statements of the property. The matcher is used by its contract in the category association, and the constructor is shown to pass the right scenes, increasing thresholds and similarities. Deletion from the caller's similarities is an obligation. The bounded check compares whole tables with an independent matcher.",
"C22": "Proof. compute_pr (plain and interpolated, with and without recall samples), compute_ap and compute_auc_ap over rankings of any length: numpy's argsort, cumsum and searchsorted by contract, the interpolation loop by a loop invariant over its ghost recursion (best precision from here on, area from here on), sampled values and the mean exactly; ranges, monotony, AP 0 and 1, a false positive becoming correct, and dependence on the ranking only, as lemmas by induction over the same recursions.",
"C23": "Bounded: generated submissions for the three tracks against independent score definitions.",
"C24": "Proof. rotation_error_1 for every symmetry combination: geodesic angle by trace contract, minimum over the group, invariances, cylindrical symmetry via an exact optimum lemma.",
"C25": "Proof. All branches of the quaternion, Euler and matrix conversions, including vertical pitch, over symbolic unit quaternions and angles.",
"C26": "Proof. nearest_neighbors, points_iou (bounding-box shortcut included), points_rmsssd and color_rmsssd over point sets, thresholds and associations of any size. scikit-learn's BallTree is a contract (a nearest row and its distance); the loops over thresholds and detections are annotated with invariants (length and sum of the list of distances, and the cache holds for its keys only the distance by definition); range, identical sets, symmetry and zero distances are lemmas by induction.",
"C27": "Proof. ColoredCategory over files with any number of rows, columns present or not, colours with any number of parts: look-ups by id and by name, the table, the image conversion for any height and width, and the refusal of every malformed file. The csv reader is a contract (rows in order, by column).",
"C28": "Proof. readPoints, writePoints, writePointsAndColors (C++), their Cython wrappers and PointCloud.write_ply / load_ply for clouds of any size: what the file holds, what is read back (float and double files; other types refused or right), memcpy and copy within bounds and between equal types, refusal of missing, malformed and unwritable files, and declarations that let the C++ exceptions reach Python. tinyply and the file streams are contracts over a ghost file system; real files are exercised by the bounded check.",
"C29": "Fault enumeration: the download tool is run against a stand-in server in a scratch folder and interrupted at every file-system and transfer step, then resumed.",
}
