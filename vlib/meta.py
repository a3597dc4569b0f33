"""Per property: level, deciding method, note.  tools/gen_manifest.py turns this into MANIFEST.json."""

ENGINE = ("obligations generated by symbolic execution of the current source (pyvc), contracts per function, discharged by ring normal "
          "forms / z3 / cvc5; refutations replayed on the compiled code")
PROOF_NOTE = ("All obligations are discharged for all inputs over real arithmetic; float rounding, numpy/Eigen primitives and the "
              "translation from Cython are trusted and listed in the evidence. The contract evaluation on the compiled code is bounded.")

META = {
    "C15": {"level": "proof", "technique": "contract-based deductive verification of the GLB packaging (loop invariants over any number of buffers, views and images and byte strings of any length, SMT back end) with replay",
            "note": PROOF_NOTE + " The json, struct, mimetypes and file functions are contracts."},
    "C01": {"level": "proof", "technique": "contract-based deductive verification of the 16-bit inverse-depth conversions (symbolic execution over any depth, code, near plane and image size; float32 rounding by contract: relative error and monotonicity; SMT back end) with replay",
            "note": "All obligations are discharged for all inputs with every operation rounded (relative error at most 2^-24, monotone), overflow and underflow left out; the translation from Cython is trusted and listed in the evidence. The contract evaluation on the compiled code is bounded."},
    "C02": {"level": "proof", "technique": "contract-based deductive verification of the 8-bit inverse-depth conversions (symbolic execution over any depth, code, near plane and image size; float32 rounding by contract: relative error and monotonicity; SMT back end) with replay",
            "note": "All obligations are discharged for all inputs with every operation rounded (relative error at most 2^-24, monotone), overflow and underflow left out; the translation from Cython is trusted and listed in the evidence. The contract evaluation on the compiled code is bounded."},
    "C04": {"level": "proof", "technique": "contract-based deductive verification of CubeMap::unproject and createPointCloud (C++ and Cython, symbolic execution over any side length and any image, ring and SMT back ends) with replay",
            "note": PROOF_NOTE + " Range images are taken without NaN (NaN is evaluated on the compiled code) and as wide as six sides."},
    "C05": {"level": "proof", "technique": "contract-based deductive verification of Rot3/Pose3 (symbolic execution, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C06": {"level": "proof", "technique": "contract-based deductive verification of the interchange functions (symbolic execution, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C07": {"level": "proof", "technique": "contract-based deductive verification of ObjectSymmetry (symbolic execution, complete case analysis) with replay",
            "note": PROOF_NOTE},
    "C08": {"level": "proof", "technique": "contract-based deductive verification of Box3d and ComputeBbox (symbolic execution over any number of points, boxes and meshes, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C09": {"level": "proof", "technique": "contract-based deductive verification of Box3d.to_mesh/to_textured_mesh (symbolic execution, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C10": {"level": "proof", "technique": "contract-based deductive verification of VoxelGrid (representation invariant, contracts of the index conversions; symbolic execution over any number of points, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C11": {"level": "proof", "technique": "contract-based deductive verification of merge, replaceGeometry, renumber and merge_quadrant_meshes (C++ and Cython, symbolic execution over any number of triangles and vertices, ring and SMT back ends) with replay",
            "note": PROOF_NOTE + " Not proved, because it does not hold (known finding renumber-partial): indices behind a block smaller than the mesh after renumber."},
    "C12": {"level": "proof", "technique": "contract-based deductive verification of the mesh clean-up operations (C++ and Cython, symbolic execution over any number of triangles and vertices, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C13": {"level": "proof", "technique": "contract-based deductive verification of the face and vertex normals and of the example meshes (C++ and Cython, symbolic execution over any number of triangles and vertices, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C16": {"level": "proof", "technique": "contract-based deductive verification of ProjectScene/ProjectObjectDict/ProjectObject save and load (symbolic execution over any number of objects, ghost file system, SMT back end) with replay",
            "note": PROOF_NOTE},
    "C17": {"level": "proof", "technique": "contract-based deductive verification of transform_pose (symbolic execution over any number of objects, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C18": {"level": "proof", "technique": "contract-based deductive verification of ProjectConverter and Voxelizer (symbolic execution over any number of objects, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C20": {"level": "proof", "technique": "contract-based deductive verification of PointCloud (C++ and Cython, symbolic execution over clouds of any size, ring and SMT back ends) with replay",
            "note": PROOF_NOTE + " register is proved for up to two clouds of any size; more clouds and appending a cloud to itself are evaluated on the compiled code (bounded)."},
    "C22": {"level": "proof", "technique": "contract-based deductive verification of compute_pr, compute_ap and compute_auc_ap (symbolic execution over rankings of any length, loop invariants, lemmas by induction, SMT back end) with replay",
            "note": PROOF_NOTE},
    "C24": {"level": "proof", "technique": "contract-based deductive verification of rotation_error_1 (symbolic execution, ring and SMT back ends, lemmas) with replay",
            "note": PROOF_NOTE},
    "C25": {"level": "proof", "technique": "contract-based deductive verification of the conversion functions (symbolic execution, ring and SMT back ends) with replay",
            "note": PROOF_NOTE},
    "C26": {"level": "proof", "technique": "contract-based deductive verification of points_iou, nearest_neighbors, points_rmsssd and color_rmsssd (symbolic execution over point sets and associations of any size, loop and cache invariants, lemmas by induction, ring and SMT back ends) with replay",
            "note": PROOF_NOTE + " The nearest-neighbour tree of scikit-learn is used by contract."},
    "C21": {"level": "proof", "technique": "contract-based deductive verification of the matcher (loop invariants over any number of elements, categories and thresholds, SMT back end) with replay",
            "note": PROOF_NOTE + " Scenes store elements under their own ids (C12)."},
    "C28": {"level": "proof", "technique": "contract-based deductive verification of the PLY functions (C++ and Cython translated from the current source, symbolic execution over clouds of any size, SMT back end) with replay",
            "note": PROOF_NOTE + " tinyply and the file streams are contracts; floats are real numbers."},
    "C27": {"level": "proof", "technique": "contract-based deductive verification of ColoredCategory (symbolic execution over files and images of any size, SMT back end) with replay",
            "note": PROOF_NOTE + " Image colours are taken to have three components from 0 to 255."},
}

BOUNDED_NOTE = ("Bounded: the contract's preconditions and postconditions are evaluated on the compiled code over generated and enumerated inputs; "
                "no obligation is claimed as proved for this property (see DESIGN.md for what keeps it out of the verifier's reach).")
BOUNDED = ["C03", "C14", "C19", "C23", "C29"]
for _i in BOUNDED:
    META.setdefault(_i, {"level": "fault_enumeration" if _i == "C29" else "exploration",
                         "technique": "contracts evaluated at run time on the compiled code (bounded stand-in for the deductive check)", "note": BOUNDED_NOTE})

NOT_APPLICABLE = {}
