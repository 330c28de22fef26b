import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
p("C01","Element-wise algebra is exact per element for every mix of operand kinds",
 "Adding, subtracting, negating, scaling, dividing, multiplying element by element, and taking pairwise minima or maxima of vectors and matrices yields at every position exactly the scalar operation applied to the operands' elements at that position. The result does not depend on how either operand is stored (fixed, dynamic, or wrapping external memory), on its basis or memory layout, or on whether the operation is evaluated lazily, eagerly or in place, and operands that are only read never change. Filling, zeroing, setting a unit axis or one element affects exactly the addressed elements.",
 ["inputs","configurations"],"all element values representable in the element types, all sizes, and every pairing of storage, basis, layout and element type",
 "Tests sample a few literals for a handful of type pairs; the claim ranges over a product of configurations and all values, including ones that need the full width of the promoted type.",
 ["cml/vector/binary_ops.h","cml/vector/writable_vector.tpp","cml/matrix/writable_matrix.tpp","cml/matrix/binary_node.tpp","cml/vector/scalar_node.tpp","cml/scalar/binary_ops.h"],
 [("lazy binary and scalar expression nodes","cml/vector/binary_node.tpp, cml/vector/scalar_node.tpp, cml/matrix/binary_node.tpp, cml/matrix/scalar_node.tpp"),("in-place operators","cml/vector/writable_vector.tpp, cml/matrix/writable_matrix.tpp, cml/matrix/detail/apply.h")],
 ["values read element by element from the result and from both operands after the call"])
p("C02","Lazy expressions mean the same as evaluating each step",
 "An expression built from vector, matrix and quaternion operations of any nesting yields the value obtained by evaluating each operation into its own object in order, when it initialises, is assigned to, or is added to an object that is not one of its operands (an expression of element-wise operations may also be assigned to one of its operands). This holds when operands are temporaries, are returned from functions, are moved, or are used several times in one expression, and an expression kept for later reads the current values of the named operands and its own copies of the temporaries; scalar factors, the norm an inverse divides by, and products evaluated at once are those of the moment it was built. Building or evaluating an expression never modifies a named operand.",
 ["programs","inputs"],"all expression shapes built from the public operators, all mixes of named and temporary operands, all element values",
 "Dangling references and wrong capture by value or reference usually read plausible stack data, so sampled assertions pass; only a systematic family of expression shapes under a memory checker decides it.",
 ["cml/vector/binary_node.tpp","cml/matrix/binary_node.tpp","cml/vector/subvector_node.tpp","cml/matrix/transpose_node.tpp","cml/vector/cross_node.tpp","cml/common/mpl"],
 [("operand capture: references for named operands, values for temporaries","cml/vector/*_node.h, cml/matrix/*_node.h, cml/quaternion/*_node.h")],
 ["values of compound expressions; values of named operands afterwards"])
p("C03","Vector products and lengths follow their algebraic definitions",
 "Dot, perp-dot, cross, triple and outer products, length, squared length, normalization, removal of one element, projection onto a vector or hyperplane, the 2D perpendicular, and Manhattan distance equal their textbook definitions (right-handed cross product, determinant-valued triple product, outer product with the first operand indexing rows). The value is the same for every storage and element-type mix and every size for which the operation is defined, and is computed in the promoted element type without narrowing.",
 ["inputs","configurations"],"all operand values, all sizes, all storage and element type pairings",
 "Sign or index slips show only for operands with several distinct non-zero components, and narrowing only for values beyond one type's precision; tests use a few fixed vectors.",
 ["cml/vector/dot.tpp","cml/vector/perp_dot.tpp","cml/vector/cross_node.tpp","cml/vector/triple_product.tpp","cml/vector/outer_product_node.tpp","cml/vector/subvector_node.tpp","cml/vector/readable_vector.tpp","cml/mathlib/vector/misc.tpp"],
 [("product functions and nodes","cml/vector/*.tpp"),("vector geometry helpers","cml/mathlib/vector/misc.tpp")],
 ["returned scalars and vectors"])
p("C04","Matrix products are row-by-column sums for every shape and configuration",
 "Element (i,j) of a matrix product is the sum over k of left(i,k) times right(k,j); a matrix times a column vector and a row vector times a matrix are the corresponding special cases. This holds for all compatible shapes, every storage, every element-type pairing, and every basis and memory layout shared by the matrix operands, and also when the product is assigned to one of its own operands. Products are associative with respect to these definitions up to rounding.",
 ["inputs","configurations"],"all compatible shapes and values; every storage and element-type pairing, in every basis and layout (the same for both matrix operands)",
 "Index mix-ups between rows, columns, basis and layout cancel for square or symmetric samples; only distinct-valued operands over all configuration pairs separate them.",
 ["cml/matrix/matrix_product.tpp","cml/matrix/vector_product.tpp","cml/matrix/size_checking.tpp"],
 [("product kernels and result types","cml/matrix/matrix_product.tpp, cml/matrix/vector_product.tpp")],
 ["elements of the product"])
p("C05","Element (i,j) is the same element through every layout, basis and accessor",
 "For every storage, memory layout and basis, a matrix built from a row-by-row list, a two-dimensional array, another matrix or element writes reads back the same element at (i,j) through every accessor: element access, row, column and basis-vector views, whole-row or whole-column or basis-vector writes, transposition and printing. A basis vector is a row of a row-basis matrix and a column of a column-basis matrix, counts and sizes agree with that, and raw data order is rows first for row-major and columns first for column-major. Writing one row, column, basis vector or element changes no other element.",
 ["inputs","configurations","histories"],"all shapes, layouts, bases, storages and sequences of writes followed by reads",
 "Layout and basis mistakes cancel when writer and reader share them or the matrix is square or symmetric; tests use small square samples.",
 ["cml/matrix/fixed_compiled.h","cml/matrix/dynamic_allocated.tpp","cml/matrix/fixed_external.tpp","cml/matrix/dynamic_external.tpp","cml/matrix/readable_matrix.tpp","cml/matrix/writable_matrix.tpp","cml/matrix/row_node.tpp","cml/matrix/col_node.tpp","cml/matrix/basis_node.tpp","cml/util/matrix_print.h"],
 [("layout-dependent element access","cml/matrix/fixed_compiled.h, cml/matrix/dynamic_allocated.tpp, cml/matrix/*_external.tpp"),("row, column and basis views","cml/matrix/row_node.tpp, cml/matrix/col_node.tpp, cml/matrix/basis_node.tpp")],
 ["elements through all accessors; raw data sequence; printed text"])
p("C06","Views over external memory touch exactly the cells they wrap",
 "A vector or matrix wrapping caller-owned memory reads and writes exactly the wrapped cells: a write through the view appears in the memory and in every overlapping view, a write to the memory appears in the view, and no cell outside the wrapped range is ever read or written. Copying a view makes another view of the same cells, assigning to a view copies elements into its cells, and destroying a view leaves the memory intact. This holds along every sequence of operations on any number of views.",
 ["histories","configurations"],"all sequences of view creation, copying, assignment, arithmetic and raw memory writes over overlapping ranges",
 "Off-by-one writes, rebinding instead of copying, and stale copies depend on the order of operations and on overlap; unit tests check one view at a time.",
 ["cml/vector/fixed_external.tpp","cml/vector/dynamic_external.tpp","cml/vector/dynamic_const_external.tpp","cml/vector/fixed_const_external.tpp","cml/matrix/fixed_external.tpp","cml/matrix/dynamic_external.tpp"],
 [("pointer-and-size wrappers","cml/vector/*_external.tpp, cml/matrix/*_external.tpp")],
 ["the wrapped buffer including guard cells, and every view, after each operation"])
p("C07","Dynamic and fixed containers behave as values along every history",
 "Vectors and matrices that own their elements behave as values: copies and assigned-to objects are independent of their source, moving or swapping transfers the value, and self-assignment changes nothing. Assigning to a dynamic object gives it the source's size and elements, and resizing keeps the leading elements in storage order up to the smaller size. These hold along every sequence of construction, copying, moving, assignment, resizing, element writes and in-place arithmetic, for every layout and basis and across fixed and dynamic kinds.",
 ["histories","configurations"],"all operation sequences over several objects of all owning kinds",
 "Shared buffers, stale sizes or leaked state need particular multi-step histories; tests exercise single steps.",
 ["cml/vector/dynamic_allocated.tpp","cml/matrix/dynamic_allocated.tpp","cml/vector/fixed_compiled.tpp","cml/matrix/fixed_compiled.tpp","cml/vector/detail/check_or_resize.h","cml/matrix/detail/check_or_resize.h","cml/matrix/detail/resize.h"],
 [("allocation, copy, move and resize","cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp")],
 ["size and elements of every live object after each operation"])
p("C08","Incompatible sizes are reported and change nothing; compatible sizes never are",
 "Every operation whose operands have run-time sizes reports the documented size error exactly when the sizes are incompatible for that operation: different sizes in element-wise operations and products, wrong operand length for cross, perpendicular and 2D/3D/4D functions, non-square input where square is required, wrong list or array lengths, negative sizes. An operation that reports an error leaves every operand as it was, except that the destination of a composite mathlib builder (set-basis-vectors, scale, translation, rotation, look-at, affine and linear transforms) is then unspecified; an operation on compatible sizes never reports one.",
 ["inputs","configurations","histories"],"all combinations of run-time sizes around the boundaries for every size-checked operation and operand kind",
 "The check must hold for every pair of sizes and operand kinds; tests try one wrong size for some operations and never look at the operands after the failure.",
 ["cml/vector/size_checking.tpp","cml/matrix/size_checking.tpp","cml/mathlib/matrix/size_checking.tpp","cml/vector/detail/check_or_resize.h","cml/matrix/detail/check_or_resize.h","cml/vector/cross_node.tpp"],
 [("size checks","cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp, cml/mathlib/matrix/size_checking.tpp")],
 ["exception type or normal completion; operand values afterwards"])
p("C09","Comparisons form a consistent order and equality, and hashing respects equality",
 "Vector comparison is lexicographic with a shorter vector ordered before its extensions, matrix equality holds exactly when shapes and all elements agree, and quaternion comparison is lexicographic in storage order. The six relational operators agree with each other, the ordering is total and transitive, and equality ignores storage, layout and element type differences. Equal vectors have equal hashes.",
 ["inputs","configurations"],"all pairs and triples of operands of every size and kind",
 "Trichotomy and transitivity are statements about all pairs and triples, including ties, prefixes and single differing elements at each position.",
 ["cml/vector/comparison.tpp","cml/matrix/comparison.tpp","cml/quaternion/comparison.tpp","cml/util/vector_hash.h"],
 [("comparison operators","cml/vector/comparison.tpp, cml/matrix/comparison.tpp, cml/quaternion/comparison.tpp"),("hash","cml/util/vector_hash.h")],
 ["boolean results and hash values"])
p("C10","Transpose, trace, determinant and inverse obey the laws of linear algebra",
 "The transpose exchanges indices, the trace is the sum of the diagonal, the determinant is the signed sum over permutations, and for every invertible matrix the inverse multiplied by the matrix on either side is the identity, up to rounding. The results agree between free functions, expressions and in-place members and between fixed and dynamic sizes of any order, layout and basis, whatever row exchanges a solution method needs.",
 ["inputs","configurations"],"all square matrices of all orders that are invertible to working precision (all matrices for transpose, trace and determinant)",
 "Each order has its own formula or pivoting path, and pivoting errors need particular zero and magnitude patterns; tests use one or two matrices per order.",
 ["cml/matrix/detail/determinant.tpp","cml/matrix/detail/inverse.h","cml/matrix/detail/transpose.h","cml/matrix/transpose_node.tpp","cml/matrix/trace.tpp","cml/mathlib/matrix/misc.tpp"],
 [("order-specific cofactor formulas and general pivoting","cml/matrix/detail/inverse.h, cml/matrix/detail/determinant.tpp, cml/matrix/detail/lu.tpp")],
 ["returned matrices and scalars"])
p("C11","LU factorization reproduces the matrix and solves linear systems",
 "The unpivoted factorization gives a unit lower and an upper triangular factor whose product is the matrix, whenever its leading minors are non-zero. The pivoted factorization gives factors whose product is the matrix with rows rearranged by the reported permutation, a sign equal to that permutation's parity, and sign zero for matrices that are singular within working precision and only for those. Solving with either factorization returns the solution of the original system for every right-hand side, and refuses a singular pivoted factorization.",
 ["inputs","configurations"],"all square matrices of all orders and all right-hand sides, within working precision",
 "Pivot selection and permutation bookkeeping are exercised only by particular magnitude and zero patterns over several columns.",
 ["cml/matrix/lu.tpp","cml/matrix/detail/lu.tpp","cml/matrix/lu.h"],
 [("partial pivoting and substitution","cml/matrix/detail/lu.tpp, cml/matrix/lu.tpp")],
 ["factors, permutation, sign, solution vector, exception"])
p("C12","Quaternion algebra obeys Hamilton's rules in every order and cross convention",
 "For every quaternion the named parts, sums, scalings, dot product, norm, length, conjugate, inverse, normalization, logarithm and exponential follow the quaternion definitions, independently of element order, and converting between element orders keeps each named part. The product is Hamilton's for the positive cross convention and the reversed one for the negative convention, it is associative, its norm is the product of norms, and a quaternion times its inverse is one. In-place, member and free forms agree.",
 ["inputs","configurations"],"all quaternion values, both element orders, both cross conventions, all element types",
 "Sign and order mistakes cancel on unit axes or symmetric values; the algebraic laws quantify over pairs and triples of quaternions.",
 ["cml/quaternion/product.tpp","cml/quaternion/writable_quaternion.tpp","cml/quaternion/readable_quaternion.tpp","cml/quaternion/inverse_node.tpp","cml/quaternion/conjugate_node.tpp","cml/quaternion/functions.tpp","cml/quaternion/order_tags.h"],
 [("product kernel, element order and cross tags","cml/quaternion/product.tpp, cml/quaternion/order_tags.h, cml/quaternion/cross_tags.h")],
 ["the four named parts of results and returned scalars"])
p("C13","All rotation constructors describe the same rotation",
 "Rotations built about a world axis, an arbitrary axis, from Euler angles in any of the twelve orders, or by converting between matrices and quaternions represent the same physical rotation whichever constructor, representation, basis, layout or order is used: turning any vector with them gives the right-handed rotation defined by the axis and angle, and Euler matrices equal the composition of their three axis rotations, the first listed axis being applied first. Row-basis matrices are the transposes of column-basis ones, results are proper rotations, and the Euler derivative matrices relate angle rates to angular velocity.",
 ["inputs","configurations"],"all axes, angles, Euler orders, bases, layouts, element types and quaternion conventions",
 "Twelve orders times parity times repetition times basis gives many sign combinations, of which tests check a few against numbers produced by the same formulas.",
 ["cml/mathlib/matrix/rotation.tpp","cml/mathlib/quaternion/rotation.tpp","cml/mathlib/euler_order.h","cml/mathlib/vector/rotation.tpp"],
 [("rotation constructors","cml/mathlib/matrix/rotation.tpp, cml/mathlib/quaternion/rotation.tpp"),("Euler order decoding","cml/mathlib/euler_order.h")],
 ["matrix elements and quaternion parts of the constructed rotation; rotated vectors"])
p("C14","Recovering axis-angle, Euler angles or quaternions reproduces the rotation",
 "For every rotation, given as matrix or quaternion, the recovered axis and angle, Euler angles in any order, or converted quaternion rebuild the same rotation within the given tolerance. This includes gimbal lock, the identity, half turns, and rotations whose trace is negative with any of the diagonal entries dominant. Recovered axes are unit vectors, or zero for a rotation indistinguishable from the identity.",
 ["inputs","configurations"],"all rotations including degenerate ones, all Euler orders, both bases, all quaternion conventions",
 "The branches are selected by signs and magnitudes of a few elements; sampled angles rarely reach every branch, in particular the degenerate ones.",
 ["cml/mathlib/matrix/rotation.tpp","cml/mathlib/quaternion/rotation.tpp"],
 [("branching recovery formulas","cml/mathlib/matrix/rotation.tpp, cml/mathlib/quaternion/rotation.tpp")],
 ["recovered axes, angles and quaternions"])
p("C15","Affine and linear transforms compose, invert and apply consistently",
 "Translation, scaling, shearing-free linear and affine matrix builders place their parts where transforming a point or vector in 2D, 3D or homogeneous form applies them, vectors ignoring translation and points including it. Concatenating transforms equals applying them one after the other in either basis, the fast rigid inverses undo exactly rotation-translation transforms, and viewing matrices map eye and target as their handedness says. Parts written into a matrix read back and leave the other elements as documented.",
 ["inputs","configurations"],"all transforms, points, bases, layouts, storages and sizes for which each function is defined",
 "Row and column conventions double every function and mistakes cancel for symmetric or axis-aligned samples.",
 ["cml/mathlib/matrix/transform.tpp","cml/mathlib/matrix/translation.tpp","cml/mathlib/matrix/scale.tpp","cml/mathlib/matrix/concat.tpp","cml/mathlib/matrix/invert.tpp","cml/mathlib/vector/transform.tpp","cml/mathlib/matrix/basis.tpp"],
 [("builders, concatenation, inversion and application","cml/mathlib/matrix/*.tpp, cml/mathlib/vector/transform.tpp")],
 ["matrix elements; transformed points and vectors"])
p("C16","Projections and frustum planes agree with the view volume they describe",
 "For every orthographic or perspective volume given by floating-point bounds, handedness and depth range convention, the corners of the view volume map to the corners of the clip volume, with near and far depths at the two ends of the chosen depth range. The width/height and field-of-view forms equal the general form with the same volume. The conversions between horizontal and vertical fields of view and zooms, and between zoom and field of view, agree with the proportions of a volume and are mutually inverse. The extracted frustum planes contain exactly the faces of the volume, face inwards, come in the documented order, and are unit length when asked.",
 ["inputs","configurations"],"all volumes with near, far and side bounds in general position and either order, both handednesses, both depth conventions, both bases",
 "Asymmetric volumes and the combinations of conventions are not sampled by tests, which use symmetric ones for some of the forms.",
 ["cml/mathlib/matrix/projection.tpp","cml/mathlib/frustum.tpp","cml/util.h"],
 [("projection builders","cml/mathlib/matrix/projection.tpp"),("plane extraction","cml/mathlib/frustum.tpp")],
 ["projected corners; plane coefficients"])
p("C17","Orthonormal frames are right-handed, ordered and aligned as requested",
 "Frames built from one or two reference vectors, aim, alignment or viewing matrices, in 2D and 3D and in every axis order, are orthonormal with the first listed axis along the reference direction and the remaining axes determined by the second reference, and are proper rotations. Aligning or aiming as a matrix, as a quaternion and as a vector basis agree in both bases.",
 ["inputs","configurations"],"all linearly independent reference vectors, all axis orders, bases, handednesses and conventions",
 "Six axis orders with parity signs, two bases and several entry points multiply; tests check few orders on axis-aligned inputs.",
 ["cml/mathlib/vector/orthonormal.tpp","cml/mathlib/matrix/rotation.tpp","cml/mathlib/matrix/basis.tpp","cml/mathlib/quaternion/basis.tpp","cml/mathlib/quaternion/rotation.tpp","cml/mathlib/axis_order.h"],
 [("axis order unpacking and cross products","cml/mathlib/axis_order.h, cml/mathlib/vector/orthonormal.tpp")],
 ["axes of the constructed frames"])
p("C18","Coordinate conversions and angles are mutually inverse and quadrant-correct",
 "Converting polar, cylindrical or spherical coordinates to Cartesian and back, for every axis choice and both latitude and colatitude conventions, reproduces the point, with angles in the correct quadrant, and the Cartesian point equals the trigonometric definition. Signed and unsigned angles between vectors in 2D and 3D have the right magnitude, lie in their documented range, and change sign with the reference direction. Rotating a vector about an axis or in the plane turns it by the given angle.",
 ["inputs","configurations"],"all points and directions in every octant, all axes and conventions",
 "Quadrant and axis-permutation errors appear only in particular octants and axis choices.",
 ["cml/mathlib/coordinate_conversion.tpp","cml/mathlib/vector/angle.tpp","cml/mathlib/vector/rotation.tpp"],
 [("conversions","cml/mathlib/coordinate_conversion.tpp"),("angle functions","cml/mathlib/vector/angle.tpp")],
 ["converted coordinates and angles"])
p("C19","Scalar helpers satisfy their defining relations on the whole domain",
 "Sign, clamp, wrap, range tests and floating-point range mapping, safe square root and inverse trigonometric forms, squares and cubes, degree-radian conversion, cyclic index stepping and permutation, axis-order packing, and index-of-largest and index-of-smallest helpers satisfy their definitions for every argument, including interval end points, negative values, ties, out-of-domain arguments and values several periods away. Wrapping returns the representative within the interval, and clamping returns the nearest point of the interval. The mathematical functions of the scalar traits return the function of their name, converted to the element type.",
 ["inputs"],"all arguments, including boundaries, ties and out-of-range values",
 "The definitions are piecewise; errors sit on boundaries, ties and far-away arguments that samples miss.",
 ["cml/scalar/functions.h","cml/scalar/constants.h","cml/mathlib/axis_order.h","cml/mathlib/euler_order.h"],
 [("piecewise scalar functions","cml/scalar/functions.h")],
 ["returned scalars"])
p("C20","Result types keep the information the operands carry",
 "The element type of every mixed expression is the language's common type of the operand element types; a fixed size survives whenever an operand fixes it, and dynamic size results only when needed. Storage, basis and layout of results follow fixed symmetric promotion rules, and results own their elements even when operands wrap external memory. Every named type (vector3d, external22f_r, quaterniond_rn, ...) has the element type, storage, sizes, basis, layout, order and cross its name states.",
 ["configurations"],"all pairs of element types, storages, sizes, bases and layouts under every binary operation",
 "Promotion is a table over type pairs; tests touch a few entries.",
 ["cml/common/promotion.h","cml/vector/types.h","cml/matrix/types.h","cml/quaternion/types.h","cml/storage/promotion.h","cml/vector/promotion.h","cml/matrix/promotion.h","cml/quaternion/promotion.h"],
 [("promotion traits","cml/storage/promotion.h, cml/vector/promotion.h, cml/matrix/promotion.h, cml/quaternion/promotion.h")],
 ["static types of results, logged as strings"])
p("C21","Random and generator functions stay inside their documented ranges",
 "Randomized vectors, matrices, integers, reals, signs, unit vectors and unit vectors in a cone always lie in the documented set: within closed bounds, of unit length, within the requested angle of the axis. Every admissible integer outcome and both signs occur, draws spread over the whole set, degenerate ranges give their only value, and invalid cone angles are rejected. Axis, zero and identity generators return exactly the named constant objects.",
 ["inputs","histories"],"all seeds and parameter values of the generators",
 "Range violations are rare events over many draws and parameters; tests draw a few values with one parameter set.",
 ["cml/mathlib/random_unit.tpp","cml/scalar/functions.h","cml/mathlib/vector/generators.h","cml/mathlib/matrix/generators.h","cml/vector/writable_vector.tpp","cml/matrix/writable_matrix.tpp"],
 [("sampling functions","cml/mathlib/random_unit.tpp, cml/scalar/functions.h"),("generators","cml/mathlib/vector/generators.h, cml/mathlib/matrix/generators.h")],
 ["drawn values and constructed constants"])
p("C22","Dynamic storage is drawn from and returned to its allocator exactly",
 "Whatever is constructed, assigned, resized, moved, swapped or destroyed, and also when an allocation or a constructor fails, the blocks a dynamically allocated vector or matrix draws from its allocator are exactly those it holds, each of exactly its number of elements, and each goes back once, to the same allocator and with the same size. Nothing is returned that was not drawn. When an allocation fails, the exception reaches the caller, nothing leaks, and operands that were not moved from keep their size and values. The result of an operation on dynamic operands uses the allocator they share, the only non-default one, or else the default one; a matrix-vector product takes the vector's.",
 ["inputs","fault points","histories"],"all constructors, assignments, resizes, moves, products and element-wise operations of dynamic vectors and matrices, every allocation of each call failing in turn",
 "Tests use the default allocator, which neither fails nor accounts for what comes back, so a leak, a double return, a wrong size or a foreign allocator stays unseen.",
 ["cml/vector/dynamic_allocated.tpp","cml/matrix/dynamic_allocated.tpp","cml/storage/allocated_selector.h","cml/storage/resize.h","cml/matrix/promotion.h","cml/vector/promotion.h"],
 [("allocation and deallocation","cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),("allocator of a result","cml/storage/allocated_selector.h")],
 ["calls made to the allocator (size, block, allocator); sizes, values and exceptions of the operands"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
