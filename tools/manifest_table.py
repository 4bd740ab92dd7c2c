IR = "abstract interpretation of LLVM IR (guarded polynomial values, symbolic loop summaries)"
TRUST = "Trusts clang's translation to IR and the models of std::vector and of the mesh kernel interface; integers do not overflow, floating point is read as real arithmetic. An obligation the analysis cannot decide is reported UNDECIDED and raises no alarm."
CHECKS = {
 "C01": (IR + "; content of the target read back element by element after copy, assignment and append, also with both operands the same object; pointer members compared", "Decides for every content of source and target; what add_mesh does with the colour is not claimed. " + TRUST),
 "C02": ("ownership typestate over " + IR + "; type-level witnesses (copyability compiled with the headers)", "Every allocation site, owning member, method and release of the library, on every path; lists of owned pointers by the loop that releases them (its index mapping is read off for up to four elements). " + TRUST),
 "C03": (IR + "; dominance of every per-triangle effect by the removal flag, over all consumers", "Decides for every mesh content and removal pattern; a reported violation names a mesh of at most three triangles. " + TRUST),
 "C04": (IR + "; oriented-edge chain algebra of the edited triangles, per guard region", "Decides every mesh edit for arbitrary content and indices. " + TRUST),
 "C05": (IR + "; exact directed-edge multiset and vertex polynomials", "Decides closedness, orientation, corner and regularity for every size of every fixed solid. " + TRUST),
 "C06": (IR + "; parametric 1-chain (boundary) algebra over triangle families", "Decides closedness for every segment count at once. " + TRUST),
 "C07": (IR + "; lattice-coordinate chain algebra of subdivisions", "Decides exact cover for every number of segments. " + TRUST),
 "C08": (IR + "; per-cell boundary sums over all condition paths of exact loop nests, vertex numbering polynomials", "Decides for every grid size and every closed/open combination; refutation by unrolling the effect tree for small grids. " + TRUST),
 "C09": (IR + "; typestate of streams: which status query covers which operation, on every success path and loop iteration", "Every point of failure of opening, reading, writing and flushing is covered by the sticky state of the standard streams, which is trusted. " + TRUST),
 "C10": (IR + "; range proof of stored corners, buffer offsets and work by slack substitution in guard facts; status coverage of values read", "Decides for every content of the file; allocation and work are compared with the file size the code measured. " + TRUST),
 "C11": (IR + "; byte layout of the file as polynomials of the image size, one family of widths per residue modulo four", "Decides for every image size at 1, 3 and 4 planes; a size limited to a few pixels is only used to name a counter-example. Palette values and the alpha plane are not compared. " + TRUST),
 "C12": (IR + "; byte layout of STL files and token sequences of OBJ files as terms of the mesh content", "Facets, indices and their shift for every mesh and every sequence of writes; normals and colours are not compared. " + TRUST),
 "C13": (IR + "; the text of every write, with symbolic numbers and counted repetitions, parsed with the Part 21 grammar and compared with the accessors", "Decides for every surface size and every sequence of writes; the class invariant on list sizes is C21. Number formatting is not covered. " + TRUST),
 "C14": (IR + "; range of every buffer index and depth test on every store by linear integer reasoning, identity of interpolated ends and depths per case, walk of the conversions to int with a not-a-number", "Decides for every projected position (the projection itself is opaque, its conversions to int are judged separately), every window and buffer content; columns of spans are as the code rounds them, so a slanted edge may be off by the rounding of its split point. " + TRUST),
 "C15": (IR + "; separability of the result into one term per channel, interval of every case, dependence of each channel on colour bits", "Decides for every colour, normal and list of lights. " + TRUST),
 "C16": (IR + "; polynomial and trigonometric identities of the result summaries", "Identities over the reals for every angle and axis; rounding is not covered. " + TRUST),
 "C17": (IR + "; content of the object read back after the call with the transform as an uninterpreted map", "Every point of every container size; apply(p) of a transform is taken as a function of the coordinates. " + TRUST),
 "C18": (IR + "; polynomial identities and truth tables of predicates over the result summaries", "Identities over the reals for all coordinates; rounding is not covered. " + TRUST),
 "C19": (IR + "; polynomial identities of the evaluated weights and control points", "Identities over the reals for all parameters; rounding is not covered. " + TRUST),
 "C20": (IR + "; the effect tree interpreted in the domain of linear forms over the homogeneous control points, one run per order type of knots and parameter", "Decides for all control points and weights at once; knots: every multiplicity pattern up to degree 3 with at most degree + 4 points, some up to degree 6, surfaces on small nets. " + TRUST),
 "C21": (IR + "; list sizes as polynomials of the counts, and a replay of the effect tree on every knot multiplicity pattern and order type up to degree 3", "Sizes for every count; order and multiplicity of knots for every pattern of degree at most 3 with at most degree + 5 points (curves) and small grids (surfaces). " + TRUST),
 "C22": (IR + "; reset-before-use and non-interference: every list, store and member of the output is replaced on every successful path, and no kept term mentions its former content", "Decides for every former content and every input; storage that is only resized must be covered by stores. " + TRUST),
 "C23": ("interprocedural mod/ref and points-to analysis of the LLVM IR with bottom-up function summaries; call graph closure for impure sources", "Covers every function of the library and every path; a write is reported when the written object can only be (part of) the read-only argument, and is left undecided when it may also be another object. Values read from memory before they are set are only seen when the compiler's SSA form shows them."),
 "C24": (IR + "; mixed-radix decomposition of the byte offsets and of the loop nests that store pixels", "Decides for every image size. " + TRUST),
 "C25": (IR + "; identity of the summed addends, exit conditions and truth tables", "Decides for every mesh content; sums are compared as polynomials over the reals. " + TRUST),
 "C26": (IR + "; the effect tree interpreted in the domain of linear forms over the homogeneous control points and compared with the Cox-de Boor basis, one run per order type of knots and parameter", "Decides for all control points, weights and parameters of a span at once (constants compared to 1e-12); knots: every multiplicity pattern up to degree 3 on small nets. " + TRUST),
 "C27": (IR + "; control nets as polynomials of the sizes, the implicit equation of the shape as a polynomial identity in the parameter of every patch", "Decides for every size and parameter (constants to 1e-9); covering and orientation at one size; meshes and profiles of small sizes. " + TRUST),
 "C28": (IR + "; the decision diagram of each query over the answers of the queries it is built from, compared with the definition under every combination of answers", "Decides for all coordinates in general position; skew segments are not claimed. Refutations show concrete triangles. " + TRUST),
 "C32": (IR + "; vertex coordinates as terms of sizes, segment count and loop counters substituted into the implicit equation of the shape; facets enumerated from the effect tree", "The position of every vertex is proved on the shape for every size and count; spacing, neighbourhood and orientation of facets are read off the effect tree for small counts and counts around every constant the code compares with. " + TRUST),
 "C36": (IR + "; screen place, depth, colour and drawing calls as terms of camera settings, window and scene, compared with the perspective image and with the list of parts a scene consists of", "Projection, line stepping (by direction of the line) and lists are proved for every value; numeric instances of the effect tree serve as witnesses only. Filling of triangles is C14's business, the colours of lights C15's. " + TRUST),
 "C29": (IR + "; state after each operation read back through the accessors with symbolic indices and compared with the state of a store", "Decides for every content, index and value; knot scaling on lists of up to eleven knots. MeshKernelHalfEdge (an unfinished stub used by nothing) is excluded. " + TRUST),
}
NA = {
 "C30": "the implementation is an unfinished stub whose wrong answer a baseline test pins; there is nothing to decide",
 "C31": "numerical convergence of runtime floating-point values; no sound static argument in reach bounds them",
 "C33": "depends on floating-point rounding of run-time coordinates, which the real-arithmetic domain abstracts away",
 "C34": "unfinished code; a geometric statement over run-time values without a static characterisation",
 "C35": "numeric precision of run-time values written as text; outside real-arithmetic abstraction",
}
