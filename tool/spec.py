"""spec.py - single source for the properties: text, anchors, harness units, bounds.
tool/gen.py writes properties.jsonl and MANIFEST.json from it; tool/check.py runs the units."""
COMMON_ASSUMPTIONS = [
    "clang 18 lowers the C++ source to LLVM IR faithfully (same compiler front end for both sides; sampled paths are compared with native g++ runs)",
    "-DNDEBUG as in the project's Release build; -ffast-math of that build is not modelled (strict IEEE / exact integers instead)",
    "-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION: the library's own checks throw instead of asserting",
    "blaze::allocate/deallocate and BrainTwister/Record.h are not installed here; /verif/stubs supplies stand-ins with the documented contract",
    "libstdc++ headers are executed as they are; the few out-of-line runtime functions are modelled in harness/rt.cpp and engine/builtins.inc",
]
EXACT = "element values are quarters e/4 (integers in int matrices) with e in the stated range; +,-,* and conversions between double and float on them round to nearest even as IEEE-754 does (encoded exactly over scaled integers); the magnitudes are chosen so that the documented results are exact while a detour through a narrower type shows; results that are themselves rounded are outside"
TECH = "solver-based symbolic execution of the real code (LLVM IR of /repo's source, z3 decides every path and assertion)"
LEVEL = "model_checking"
CORE, UTIL, MF, BI = "include/BlasBooster/Core/", "include/BlasBooster/Utilities/", "include/BlasBooster/MatrixFactory/", "include/BlasBooster/BlasInterface/"
def A(files, *mech): return dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
def U(src, entries=None, name=None, **kw):
    d = dict(name=name or src.split(".")[0], src=src, **kw)
    if entries: d["entries"] = entries
    return d

TRACK = "@REPO@/src/Utilities/tracker.cpp"

PROPERTIES = {
"C01": dict(title="Dense matrix elements are addressed by row and column for every shape and order",
  statement="Every element of a dense matrix, in column-major or row-major order, in owned or caller-supplied memory, is reached at exactly its row and column: distinct positions never alias, every traversal order (rows, columns, whole storage, block view) visits each element exactly once, and a value written through one access path is read back through all others. A block view reads and writes exactly the elements of its block of the parent and nothing else.",
  over=["inputs", "configurations"], q="all shapes within the bound including empty ones, all positions, all element values, all block positions, element types double, float and int, both orders",
  why="No test of the core matrices is part of the reliable test set; the existing ones sample a handful of fixed matrices.",
  anchors=A([CORE + "DenseMatrix.h", CORE + "Dimension.h", CORE + "Storage.h", CORE + "Cursor.h"], ("element access", CORE + "DenseMatrix.h"), ("leading dimension and stride", CORE + "Dimension.h")),
  units=[U("dense_access.cpp"), U("large.cpp", r"^(access)(_.*)?$", extra=[TRACK])],
  bounds="rows, columns 0..3 (quick) / 0..5 (thorough) in every combination; every block position of every view in these sizes; all element values |e|<=1e6; double, float, int; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="larger dimensions; row-major views (their constructor does not compile in this tree)"),
"C02": dict(title="Matrices and storages own their memory and behave as values over any history",
  statement="After any history of copying, moving, assigning, swapping, resizing and writing, every live matrix has the dimensions and elements of a plain value model, and changing one matrix never changes another one. Every heap block is released exactly once, also when an allocation inside an operation fails, and memory supplied by the caller is never released or replaced.",
  over=["histories", "fault_sequences", "inputs"], q="all histories of the stated number of operations drawn from eleven kinds, every position of a failing allocation, all element values",
  why="Tests run a few fixed sequences and never fail an allocation; ownership defects show only in particular combinations of operations.",
  anchors=A([CORE + "Storage.h", CORE + "DenseMatrix.h", CORE + "SparseMatrix.h", CORE + "SparseStorage.h", CORE + "Dimension.h"], ("memory ownership", CORE + "Storage.h"), ("copy, move, swap", CORE + "DenseMatrix.h"), ("sparse arrays", CORE + "SparseStorage.h")),
  units=[U("lifetime.cpp"), U("large.cpp", r"^(owner)(_.*)?$", extra=[TRACK])],
  bounds="two matrices (dense/sparse, both orders, double/float) of at most 2x2 elements, every sequence of 2 (quick) / 3 (thorough) operations out of 11; the first to fourth allocation of each operation failing; storage classes of 4 values; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="longer histories, fixed-size matrices (do not compile), histories on the block-wise matrix"),
"C03": dict(title="Dense conversions and copies keep every element",
  statement="Converting or copying a dense matrix to another element type, storage order or memory layout, including to and from a block view, gives a matrix of the same dimensions holding the converted value of every element at the same row and column, bit for bit when the element type is unchanged. The source is unchanged, nothing outside the destination block is written, and with a significance filter exactly the significant elements are kept while all others become zero.",
  over=["inputs", "configurations"], q="all shapes within the bound, all block positions, all element values (all IEEE bit patterns for same-type copies), all filter bounds",
  why="The reliable tests contain no conversion; the remaining ones use fixed matrices of one size.",
  anchors=A([CORE + "DenseMatrix.h", CORE + "Copy.h", CORE + "Cursor.h"], ("converting constructors", CORE + "DenseMatrix.h"), ("copy functor", CORE + "Copy.h")),
  units=[U("convert.cpp", r"^(d[dfi]r?_d[dfi]r?|dir_dd|bits_.*|filter_.*|view_.*|copy_.*)$"), U("large.cpp", r"^(dense)(_.*)?$", extra=[TRACK])],
  bounds="rows, columns 0..3 (quick) / 0..4 (thorough); blocks in a matrix of at most 3x3 / 4x4; element values |e|<=1e6 exact integers, all bit patterns up to 2x3 for same-type copies; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="values whose conversion to a narrower type rounds or overflows; larger shapes", assumptions=[EXACT]),
"C04": dict(title="Dense to sparse conversion stores exactly the significant elements",
  statement="Converting a dense matrix to a compressed sparse matrix with a significance threshold or interval stores exactly the elements whose absolute value is significant, each at its row and column and in ascending order inside its line, with consistent offsets and no slack. Converting back yields the original with all insignificant elements replaced by zero.",
  over=["inputs", "configurations"], q="all shapes within the bound including empty ones, all element values, all thresholds and intervals, all combinations of storage orders",
  why="Tests use one or two fixed matrices and thresholds; off-by-one offsets and boundary values need specific shapes and values.",
  anchors=A([CORE + "SparseMatrix.h", CORE + "DenseMatrix.h", CORE + "SparseStorage.h", CORE + "AbsoluteValueRangeChecker.h", CORE + "Occupation.h"], ("conversion loops", CORE + "SparseMatrix.h"), ("significance test", CORE + "AbsoluteValueRangeChecker.h")),
  units=[U("convert.cpp", r"^(d[df]r?_s[df]r?.*|dense_sparse_range|ddr_s.*3|dd_s.*3)$"), U("large.cpp", r"^(sparse)(_.*)?$", extra=[TRACK])],
  bounds="rows x columns up to 2x3 and 3x2 (quick) / 3x3 (thorough), |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float and thresholds 0..1000 symbolic; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="larger shapes; non-finite elements", assumptions=[EXACT]),
"C05": dict(title="Sparse, zero, split and dynamic matrices convert without losing an element",
  statement="Converting between sparse matrices of any element type and order, from sparse, zero, two-summand or dynamically typed matrices to dense, and from dense to zero yields a matrix of the same dimensions whose elements equal those of the source (the sum of both summands for a split matrix). The result is independent of the source, the source is unchanged, sparse results have ascending keys and consistent offsets, a significance filter keeps exactly the significant elements, and summands of different dimensions are rejected.",
  over=["inputs", "configurations"], q="all shapes within the bound, all occupation patterns, all element values, all seven members of the dynamic matrix type list",
  why="Occupation patterns are combinatorial; tests use one pattern per type pair.",
  anchors=A([CORE + "SparseMatrix.h", CORE + "DenseMatrix.h", CORE + "ZeroMatrix.h", CORE + "MultipleMatrix.h", CORE + "DynamicMatrix.h"], ("sparse copies", CORE + "SparseMatrix.h"), ("dense from dynamic matrix", CORE + "DenseMatrix.h"), ("summand pair", CORE + "MultipleMatrix.h")),
  units=[U("convert.cpp", r"^(s[df]r?_.*|zero|multiple.*|dynamic)$"), U("large.cpp", r"^(open)(_.*)?$", extra=[TRACK])],
  bounds="shapes up to 3x2 / 2x3 (quick) / 4x3 (thorough) with every occupation pattern; 2x2 for split and dynamic matrices; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="larger shapes", assumptions=[EXACT]),
"C06": dict(title="Transposition exchanges rows and columns and is its own inverse",
  statement="Transposing a dense or sparse matrix of any shape, order and occupation gives the matrix with every element at its mirrored position and exchanged dimensions, with a well-formed sparse structure. Transposing twice returns the original and the source is never modified.",
  over=["inputs"], q="all shapes within the bound including empty ones, all occupation patterns, all element values (all bit patterns for dense)",
  why="Tests transpose fixed matrices; empty lines and empty matrices are not sampled.",
  anchors=A([CORE + "Transposition.h", CORE + "SparseMatrix.h"], ("transpose functors", CORE + "Transposition.h")),
  units=[U("convert.cpp", r"^tr_.*$"), U("large.cpp", r"^(turn)(_.*)?$", extra=[TRACK])],
  bounds="dense 0..3 (quick) / 0..4 (thorough); sparse up to 3x2 and 2x3 / 4x3 with every occupation pattern; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="larger shapes"),
"C07": dict(title="Sums and differences are element-wise exact for every pair of matrix kinds",
  statement="Adding or subtracting two matrices of equal dimensions, whatever their kinds (dense, sparse, zero, split into two summands, dynamically typed), element types and storage order, yields at every position exactly the sum or difference of the operands' elements, including the sign of elements stored only on the right. Results have the operands' dimensions and a well-formed structure without unused storage, and the operands stay unchanged; in-place forms on dense matrices change exactly the left operand.",
  over=["inputs", "configurations"], q="all pairs of matrix kinds the operators accept, all shapes and occupation patterns within the bound, all element values",
  why="Tests add a few fixed matrices and never subtract mixed kinds; sign and merge errors depend on which side stores an element.",
  anchors=A([CORE + "BinaryFunctors.h", CORE + "MultipleMatrix.h", CORE + "DynamicMatrixFunctions.h"], ("merge of sparse lines", CORE + "BinaryFunctors.h"), ("dynamic operators", CORE + "BinaryFunctors.h")),
  units=[U("arith.cpp"), U("large.cpp", r"^(sums)(_.*)?$", extra=[TRACK])],
  bounds="dense operands 0..2 (quick) / 0..3 (thorough) rows and columns; sparse operands up to 2x2 with every pair of occupation patterns; split and dynamic operands up to 2x2 / 2x1; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="rounded results; in-place operations on sparse or split matrices (the library throws: not implemented); larger shapes", assumptions=[EXACT]),
"C08": dict(title="Products equal the sum over the inner dimension for every pair of matrix kinds",
  statement="Multiplying two matrices whose inner dimensions agree, whatever their kinds (dense, sparse, zero, split into two summands, dynamically typed), element types and storage orders, yields at every position the exact sum of products over the inner dimension, also when a dimension is zero or the result matrix was used before. Sparse products are well-formed without unused storage, products with a zero matrix are zero matrices of the right dimensions, and the operands stay unchanged.",
  over=["inputs", "configurations"], q="all pairs of matrix kinds, all shapes and occupation patterns within the bound, all element values, both storage orders",
  why="Tests multiply fixed square matrices; shape mix-ups cancel on square matrices and row-major operands are never multiplied.",
  anchors=A([CORE + "Multiplication_Native.h", CORE + "MatrixMultExp.h", CORE + "Multiplication.h", CORE + "Multiplication_TheBestPolicy.h", CORE + "MultipleMatrix.h"], ("native kernels", CORE + "Multiplication_Native.h"), ("expression evaluation", CORE + "MatrixMultExp.h")),
  units=[U("product.cpp", extra=[TRACK]), U("large.cpp", r"^(prod)(_.*)?$", extra=[TRACK])],
  bounds="dense 0..2 (quick) / 0..3 (thorough) in each of the three dimensions; sparse operands up to 2x2 (3x2 thorough) with every pair of occupation patterns; split and dynamic operands up to 2x2; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: inner dimensions up to 300 and results of up to 130 rows or columns",
  outside="rounded results; larger shapes; BLAS back ends (separate property)", assumptions=[EXACT]),
"C09": dict(title="OpenBLAS wrappers hand every argument and result through unchanged",
  statement="Calling any of the BLAS routines through the OpenBLAS interface performs exactly one call of the library routine of that name, with every argument in its position, and delivers everything the routine writes and returns, including complex results, back to the caller. Setting the number of threads passes on exactly that number.",
  over=["inputs", "programs"], q="all 158 routines of the interface, all argument contents, all results the library may produce",
  why="No test calls any wrapper; a transposed argument or a routine of another precision compiles and links.",
  anchors=A(["src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", BI + "BlasInterface_OpenBLAS.h", BI + "Blas.h", BI + "FunctionTypes.h"], ("forwarding functions", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"), ("routine tags", BI + "FunctionTypes.h")),
  units=[U("fw_openblas.cpp", extra=["@REPO@/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"])],
  bounds="all routines; 32 bytes of fully symbolic content per argument; symbolic results",
  outside="what the library routine itself computes", assumptions=["the library is a stand-in with the calling convention of the installed OpenBLAS (gfortran convention: complex results by value; cblas_*_sub: through a pointer)"]),
"C10": dict(title="Intel MKL wrappers hand every argument and result through unchanged",
  statement="Calling any of the dense or sparse BLAS routines through the Intel MKL interface performs exactly one call of the library routine of that name, with every argument in its position, and delivers everything the routine writes and returns, including complex results, back to the caller. Setting the number of threads passes on exactly that number.",
  over=["inputs", "programs"], q="all 162 routines of the interface, all argument contents, all results the library may produce",
  why="Intel MKL is not installed, so nothing even links these wrappers; a transposed argument compiles.",
  anchors=A(["src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp", BI + "BlasInterface_IntelMKL.h", BI + "IntelMKL_SpBlas.h", BI + "Blas.h"], ("forwarding functions", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"), ("sparse routines", BI + "IntelMKL_SpBlas.h")),
  units=[U("fw_mkl.cpp", extra=["@REPO@/src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"])],
  bounds="all routines; 32 bytes of fully symbolic content per argument; symbolic results",
  outside="what the library routine itself computes", assumptions=["the library is a stand-in; complex results use the hidden first argument of the Intel Fortran convention, as the interface declares them"]),
"C11": dict(title="Significance checkers accept exactly their range and never share cache keys",
  statement="A significance checker exists exactly when its bounds form a range (non-negative, not NaN, lower below upper, equal bounds only when both are inclusive); it then accepts exactly the values whose magnitude lies in that range, for every bit pattern of double and float values including NaN and infinities, and every integer. The order used to cache occupations is a strict weak order in which two checkers are equivalent exactly when their kind and bounds agree, so different checkers never share a cached result.",
  over=["inputs"], q="all IEEE-754 bit patterns of value and bounds, all four kinds of bounds, double and float in every combination, all pairs and triples of checkers",
  why="Tests sample a few thresholds; NaN bounds and pairs of checkers of different kinds with equal bounds are not sampled.",
  anchors=A([CORE + "AbsoluteValueRangeChecker.h", CORE + "OccupationPolicy.h"], ("decision", CORE + "AbsoluteValueRangeChecker.h"), ("cache order", CORE + "AbsoluteValueRangeChecker.h")),
  units=[U("checkers.cpp", opts=dict(fp=1))],
  bounds="none on values (bit-precise IEEE-754); pairs over 8 kinds (4 kinds x 2 threshold types), triples over 4 kinds with double thresholds (quick) / 8 kinds (thorough)",
  outside="user-defined checkers; INT_MIN (its magnitude is not representable)"),
"C12": dict(title="Norms equal their definition for every matrix kind",
  statement="The one-norm is the sum of magnitudes of all elements, the two-norm the root of the sum of squares, and the maximum norm the largest magnitude, for dense, sparse, zero, split, dynamically typed and block-wise matrices, block views, every shape (empty ones give zero), storage order and occupation pattern. Computing a norm changes nothing.",
  over=["inputs", "configurations"], q="all matrix kinds, all shapes and occupation patterns within the bound, all element values and signs",
  why="Tests take norms of a few fixed matrices; split and block-wise matrices, signs and empty shapes are not sampled.",
  anchors=A([CORE + "Norm.h", CORE + "NormPolicy.h"], ("norm functors", CORE + "Norm.h")),
  units=[U("norms.cpp", r"^(norm_.*|zero_queries)$", name="norm"), U("large.cpp", r"^(norm)(_.*)?$", extra=[TRACK])],
  bounds="dense 0..2 (quick) / 0..3 (thorough); views in parents up to 3x3; sparse up to 2x2 with every occupation pattern; split and dynamic up to 2x1 / 2x2; block-wise up to 2x2 blocks of 2x1; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="rounded results; larger shapes; rounding of square roots", assumptions=[EXACT, "std::sqrt is exact: a function whose square is its argument (counterexamples are looked for among true squares)"]),
"C13": dict(title="Cached norms and occupations always describe the current matrix",
  statement="Whatever whole-matrix operations (copy, move, assignment of a matrix or value, swap, resize, in-place sum and difference) were interleaved with requests for the norm or the number and fraction of significant elements, every later request on every matrix involved gives the value of its current elements, for every checker asked. A conversion to a sparse matrix counts the current elements, an empty matrix has occupation zero, and dynamic matrices report the values of the matrix they hold.",
  over=["histories", "inputs"], q="all histories of one operation on two previously queried matrices, all element values and thresholds, double and float, both orders, dense and sparse",
  why="A stale cache shows only after a query, a change and a second query on one of the objects involved; tests query each matrix once.",
  anchors=A([CORE + "NormPolicy.h", CORE + "OccupationPolicy.h", CORE + "DenseMatrix.h", CORE + "SparseMatrix.h", CORE + "MatrixBase.h"], ("norm cache", CORE + "NormPolicy.h"), ("occupation cache", CORE + "OccupationPolicy.h")),
  units=[U("norms.cpp", r"^(history.*|moved_.*|element_write.*|convert_after_write|dynamic_.*|norm_compare_.*|zero_queries)$", name="cache"), U("large.cpp", r"^cached(_.*)?$", extra=[TRACK])],
  bounds="histories query-operation-query over 13 operations on two matrices with 2x1 elements (thorough: also 0x1 and 1x1) plus empty shapes; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 before and after an assignment, one symbolic element",
  outside="rounded results; longer histories; writes of single elements after a query (known finding, re-confirmed on every run)", assumptions=[EXACT, "std::sqrt is exact: a function whose square is its argument (counterexamples are looked for among true squares)"]),
"C14": dict(title="Conversion picks the first admissible type and keeps what is significant",
  statement="Every threshold and block size setting reaches exactly the matrix type and precision it is named for and survives copies. Converting a dense matrix or block view with a set of thresholds yields the first type of the dynamic type list for which the fraction of elements above each significance threshold does not exceed the type's occupation threshold, and fails only when no type qualifies (never with the defaults). The result has the source's dimensions, holds exactly every element above the double-precision significance threshold (all elements for dense targets), splits at the single-precision threshold, and the source is unchanged.",
  over=["inputs", "configurations"], q="all settings (bit patterns for routing, quarters between -1/4 and 5/4 for selection), all significance thresholds, all element values of matrices within the bound, every target type",
  why="The outcome depends on the interplay of sixteen settings and two occupations; tests use one fixed matrix and the default settings.",
  anchors=A([CORE + "MatrixConverter.h", CORE + "Threshold.h", CORE + "DynamicMatrixTypeList.h", UTIL + "exec_if.h"], ("selection and conversion", CORE + "MatrixConverter.h"), ("settings", CORE + "Threshold.h")),
  units=[U("converter.cpp"), U("large.cpp", r"^(converted)(_.*)?$", extra=[TRACK])],
  bounds="all 14 occupation thresholds symbolic at once on up to 1x1 (quick) / 2x1 (thorough); one type's thresholds symbolic on 2x1, 1x4 and 2x2 matrices and on every 2x1 view of a 3x2 matrix; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; significance thresholds 0..20000001/4 in quarters with double < single; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="sparse sources (do not compile in this tree); rounded results; larger matrices", assumptions=[EXACT, "element counts are powers of two, so fractions are exact"]),
"C15": dict(title="Block-wise matrices assemble, split and multiply like the whole matrix",
  statement="A matrix assembled from blocks of any kinds and sizes has every block's elements at their place; splitting a dense matrix by lists of block sizes converts every block by the thresholds and assembling it again returns every kept element, with the number of blocks, block dimensions and total dimensions agreeing. Block-wise products equal the product of the assembled matrices. Copies, moves, swap and resize keep blocks, counts and total dimensions together and release every block once; type, dimension and norm summaries describe each block.",
  over=["inputs", "configurations", "histories"], q="all block size lists and block kinds within the bound, all element values, every conversion target",
  why="Tests use one square matrix with equal blocks; unequal blocks, block kinds and moved or resized block matrices are not sampled.",
  anchors=A([CORE + "BlockedMatrix.h", CORE + "BlockedMatrixGenerator.h", CORE + "DenseMatrix.h", CORE + "Multiplication_Native.h", CORE + "GenerateTypeMatrix.h"], ("splitting", CORE + "BlockedMatrixGenerator.h"), ("assembling", CORE + "DenseMatrix.h"), ("block-wise product", CORE + "Multiplication_Native.h")),
  units=[U("blocked.cpp", extra=[TRACK]), U("large.cpp", r"^(blocks|block_product)$", extra=[TRACK])],
  bounds="up to 2x2 blocks of up to 2x2 elements (3x3 blocks for splitting with dense blocks); one block of each operand of any of the seven kinds at a time; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 cut into 1..9 blocks per direction",
  outside="row-major sources of splitting (do not compile); fixed-size blocks; matrices without blocks; rounded results", assumptions=[EXACT]),
"C16": dict(title="Block sizes cover the matrix, keep the limits and cut at the strongest edges",
  statement="For every matrix with at least one row and column and all valid limits, block size generation ends and returns block sizes that sum to the dimension, none smaller than the minimum (unless the whole dimension is) and none larger than the maximum. The borders lie at the strongest changes of magnitude between neighbouring lines that still allow a division, no division follows once every block keeps the maximum, and rows and columns are detected separately in either storage order; for a product the inner dimension follows both operands. Limits that could not be met are rejected and the matrix is unchanged.",
  over=["inputs", "configurations"], q="all detection values (including all ties) for dimensions within the bound, all limits within the bound, all matrices of small integers, both orders, double and float",
  why="Tests use one symmetric square matrix with divisible size; dimensions that cannot be divided, ties and rectangular matrices are not sampled.",
  anchors=A([CORE + "BlockSizeGenerator.h"], ("detection", CORE + "BlockSizeGenerator.h"), ("selection of borders", CORE + "BlockSizeGenerator.h")),
  units=[U("blocksize.cpp", extra=[TRACK])],
  bounds="symbolic detection values up to 4 (quick) / 5 (thorough), two-valued ones up to 7 / 9 positions, minimum 0..3, maximum up to 6 / 8; matrices up to 2x3 / 3x3 with |e|<=9 (small shapes) or |e|<=1, in units of one and of an eighth, 3x3 and 4x2 matrices of zeros and ones for the whole path; one symbolic value among 19..70 (thorough 131) given ones; detection in 40x3, 3x40, 21x20, 130x1 and 1x130 matrices with one symbolic element",
  outside="matrices without rows or columns; larger dimensions with more than one symbolic value; magnitudes beyond 1/8 to 16", assumptions=[EXACT]),
"C17": dict(title="Products by library back ends equal the native product",
  statement="Multiplying through OpenBLAS, Intel MKL (dense, sparse with dense, sparse with sparse), Eigen or Blaze, or through the best available back end, yields exactly the product of the operands for every shape including empty ones, in a fresh or used result matrix, and leaves the operands unchanged. Every library call obeys the contract of the routine: dimensions, leading dimensions of at least one, index base and array sizes are valid, so the library never reads or writes outside the matrices.",
  over=["inputs", "configurations"], q="all shapes within the bound including empty ones, all element values, all occupation patterns, all pairs of the seven dynamic matrix types",
  why="No library back end is part of the reliable tests (Intel MKL and Blaze are not even installed); a wrong leading dimension only shows for rectangular or empty matrices.",
  anchors=A([CORE + "Multiplication_OpenBLAS.h", CORE + "Multiplication_IntelMKL.h", CORE + "Multiplication_Eigen.h", CORE + "Multiplication_Blaze.h", CORE + "Multiplication_TheBestPolicy.h"], ("arguments of gemm", CORE + "Multiplication_OpenBLAS.h"), ("sparse routines", CORE + "Multiplication_IntelMKL.h"), ("maps of foreign memory", CORE + "Multiplication_Eigen.h")),
  units=[U("backend_openblas.cpp", extra=[TRACK]), U("backend_mkl.cpp", extra=[TRACK]), U("backend_eigen.cpp", extra=[TRACK], inc=["/usr/include/eigen3"]), U("backend_blaze.cpp", extra=[TRACK])],
  bounds="rows and columns 0..2, inner dimension 0..3 (quick) / 0..3, 0..4 (thorough); sparse operands up to 2x2 (1x2x2 and 2x2x1) with every pair of occupation patterns; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: inner dimensions up to 300 and results of up to 130 rows or columns",
  outside="rounded results; larger shapes; the libraries themselves: OpenBLAS, MKL and Blaze are stand-ins (Eigen is executed as installed, without vectorization)", assumptions=[EXACT, "gemm, csrmm and csrmultcsr are reference implementations that check the documented argument contract (csrmultcsr sorts the result only if asked to, requests 0, 1 and 2)", "blaze::CustomMatrix is a stand-in for an unaligned, unpadded view"]),
"C18": dict(title="Run-time dispatch reaches the handler of the held type, or reports an error",
  statement="For a dynamically typed matrix, every dispatcher calls exactly one handler, that of the matrix type actually held (of both held types for pairs, in order), respectively the first type the predicate accepts; a type that is not listed, or no accepted type, is reported as an error and nothing is called. Type indices agree with the type list, names translate to the enumeration value of that name and back, and call statistics count every tracked call exactly once.",
  over=["inputs", "histories"], q="all predicates over the type list (pairs of predicates), all pairs of held types, all unlisted types within the bound, all sequences of tracked calls within the bound",
  why="Tests dispatch one or two held types; unlisted types, order of pairs and overlapping predicates are not sampled.",
  anchors=A([UTIL + "exec_if.h", UTIL + "exec_if_2dim.h", UTIL + "exec_dyn.h", UTIL + "exec_dyn_2dim.h", UTIL + "TypeList.h", UTIL + "EnumParser.h", UTIL + "Tracker.h", "src/Utilities/tracker.cpp"], ("search", UTIL + "exec_if.h"), ("tables", UTIL + "exec_dyn_2dim.h"), ("statistics", UTIL + "Tracker.h")),
  units=[U("dispatch.cpp", extra=[TRACK])],
  bounds="the list of seven dynamic matrix types; all 128 predicates and all pairs of them; three unlisted types; up to three tracked calls",
  outside="other type lists; names that are not listed (a precondition of EnumParser); measured durations"),
"C19": dict(title="Saving and loading restores the saved matrix and its memory rules",
  statement="Saving a dense matrix, a storage or compressed sparse arrays and loading them into a fresh or used object gives the same dimensions and elements, reading back exactly what was written in the same order. The saved object is unchanged, the loaded one owns its own memory, forgets cached norms and occupations, behaves as a value afterwards, releases its old memory exactly once and never writes to memory of the caller.",
  over=["inputs", "histories"], q="all shapes within the bound, all element values, fresh and used targets of every shape, targets on external memory",
  why="No reliable test saves or loads; leaks and stale caches need a used target.",
  anchors=A([CORE + "Storage.h", CORE + "DenseMatrix.h", CORE + "SparseStorage.h", CORE + "Dimension.h"], ("storage", CORE + "Storage.h"), ("dense matrix", CORE + "DenseMatrix.h")),
  units=[U("serialize.cpp")],
  bounds="dense matrices up to 2x2 (quick) / 3x3 (thorough) of double (both orders), float, int into targets up to 2x2; storages of up to 3 values; sparse arrays of up to 3 elements; large shapes: 67x5, 5x67, 260x1, 1x1030, 34x33 and sparse arrays of up to 260 elements with all values",
  outside="the archive formats of Boost (the archive is a stand-in recording values in order); sparse and dynamic matrices (their serialization is disabled in the source)", assumptions=["an archive stores each primitive value in call order and returns it unchanged"]),
"C20": dict(title="The accelerated multiplication returns the product from end to end",
  statement="The block-wise accelerated multiplication, run as the benchmark runs it (block sizes from the magnitudes of both operands, conversion of every block to the cheapest admissible type, block-wise product, assembly), returns a matrix with the dimensions and elements of the exact product whenever no element lies below the significance threshold, however the operands are cut into blocks and whatever types the blocks get, and leaves the operands unchanged.",
  over=["inputs", "configurations"], q="all element values within the bound (hence every division into blocks and every choice of block types), thresholds within the bound",
  why="Tests of the parts never run the whole chain, and no reliable test runs any part of it; the divisions depend on the element values.",
  anchors=A(["src/Benchmark/Action_blasbooster_block.h", CORE + "BlockSizeGenerator.h", CORE + "BlockedMatrixGenerator.h", CORE + "Multiplication_TheBestPolicy.h", CORE + "MatrixConverter.h"], ("chain", "src/Benchmark/Action_blasbooster_block.h")),
  units=[U("pipeline.cpp", extra=[TRACK])],
  bounds="products with dimensions 3x1x1, 1x3x1, 1x1x3, 3x1x3, 2x1x2 with |e|<=1 or 3, block sizes 1..2, 1..4 and, for 1x3x1 with elements 0 and 4..7, 0..1; 2x1x1 with every significance threshold; native action up to 2x2x2 with |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; large shapes: 20x12x9, 40x3x2, 3x40x2, 2x3x40, 1x70x1, 70x1x1, 1x1x70 with elements of given magnitude (0, 2..3, 32..63, 512..1000)",
  outside="larger matrices with elements of every magnitude; rounded results; accuracy when elements are dropped or lowered to single precision beyond exact values", assumptions=[EXACT]),
"C21": dict(title="Matrix, image and settings files are complete or an error is reported",
  statement="Reading a matrix file (by path, stream or importer, whole matrices or blocks with offsets and leading dimensions, double or float) returns every element bit for bit from its place in the file, or reports an error if a file is missing, too short, or describes a block outside its array. A pattern image shows, at each element's position, the colour of the highest threshold its magnitude reaches. Writing settings never replaces an existing file without permission, and reading a missing one is reported and changes nothing.",
  over=["inputs", "crash_points", "configurations"], q="all shapes, offsets and leading dimensions within the bound, all element bit patterns, every truncation within the bound, all palettes within the bound",
  why="Tests read intact files of one size; truncated files and blocks outside the array are not sampled.",
  anchors=A([CORE + "MatrixFileIO.h", "src/MatrixFactory/MatrixFileImporter.cpp", CORE + "PatternGenerator.h", UTIL + "FileIO.h"], ("reader of blocks", CORE + "MatrixFileIO.h"), ("image", CORE + "PatternGenerator.h"), ("settings", UTIL + "FileIO.h")),
  units=[U("fileio.cpp", inc=["@VERIF@/stubs_env"], libs=["-lboost_system"])],
  bounds="arrays up to 3x2, blocks in every position, truncation by up to one element; images up to 2x3 and 2x1 with up to two colours, |e|<=50; long files: arrays 60x3, 3x60, 190x1, 1x190, 13x14 with every bit pattern, offsets of half the array, one byte missing",
  outside="row-major matrices in files; larger files; file system races", assumptions=["files are a model with symbolic content, existence and permission; property trees are read by a stand-in for Boost's parsers, the record macro by a stand-in for BrainTwister"]),
"C22": dict(title="Benchmark settings select exactly the named matrices and actions",
  statement="Every matrix set of the settings provides exactly the matrices it describes, in order: band matrices of each listed dimension and width hold the value inside the band and zero outside (also when the band is wider than the matrix), files are read completely, an equal set has the same matrices. Every configured action is provided once and in order, runs on the back end and number of threads it is named and configured for, and returns the exact product leaving its operands unchanged. Unknown names are reported.",
  over=["inputs", "configurations"], q="all lists of dimensions and widths within the bound, all values, all action names and lists of them within the bound, all element values and thread counts",
  why="No test covers the benchmark code; wide bands and misspelled names are unusual inputs.",
  anchors=A(["src/Benchmark/MatrixProvider.cpp", "src/Benchmark/ActionProvider.cpp", "src/Benchmark/Action_openblas_dgemm.h", "src/Benchmark/Action_intelmkl_sgemm.h", "src/Benchmark/Action_eigen_dgemm.h", "src/Benchmark/Action_native_dense.h"], ("matrix sets", "src/Benchmark/MatrixProvider.cpp"), ("actions", "src/Benchmark/ActionProvider.cpp")),
  units=[U("provider.cpp", inc=["@VERIF@/stubs_env"], extra=[TRACK], libs=["-lboost_system"]), U("actions.cpp", inc=["@VERIF@/stubs_env", "/usr/include/eigen3"], extra=[TRACK], libs=["-lboost_system"])],
  bounds="up to two dimensions 0..3 and two widths 0..4; lists of up to three actions out of twelve; products up to 2x2x2 with |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; 1..64 threads, 1..2 repetitions; the block-wise action with each type admitted alone, significance thresholds up to 250 and block limits up to 3",
  outside="rounded results; the libraries themselves (stand-ins, see C17); measured times", assumptions=[EXACT, "settings trees and files are models (see C21)"]),
"C23": dict(title="Command line tools write what was asked for or end with an error status",
  statement="generate_matrix writes a file holding exactly the band matrix its options describe, with the documented defaults for what is not given; show_pattern draws every element, or every element in the colour of its block's type with only the border lines of each block in the background; benchmark runs every action on every pair of matrices as often as configured and writes the difference to the first action for each pair on request. A file that cannot be read or written, incomplete or unknown settings, sets of different length or a command line that is not understood end with an error status and no result; a request for help ends with success and writes nothing.",
  over=["inputs", "configurations", "fault_sequences"], q="all option values within the bound, all element values, all back end results, every unreadable or unwritable file, each missing setting",
  why="No test runs the tools.",
  anchors=A(["src/Benchmark/generate_matrix.cpp", "src/Benchmark/show_pattern.cpp", "src/Benchmark/benchmark.cpp"], ("band matrix", "src/Benchmark/generate_matrix.cpp"), ("block image", "src/Benchmark/show_pattern.cpp"), ("loop and differences", "src/Benchmark/benchmark.cpp")),
  units=[U("tools_generate.cpp", inc=["@VERIF@/stubs_env"], extra=[TRACK], libs=["-lboost_system"]), U("tools_pattern.cpp", inc=["@VERIF@/stubs_env"], extra=[TRACK], libs=["-lboost_system"]), U("tools_benchmark.cpp", inc=["@VERIF@/stubs_env"], extra=[TRACK], libs=["-lboost_system"])],
  bounds="matrices up to 3x3, bands up to 4, images of up to 2x2 / 3x1 elements with borders up to 3, benchmarks of up to two pairs, two actions, two repetitions",
  outside="parsing of the command line and the settings files (stand-ins for clara, JSON and Boost's XML), what is printed on the terminal, measured times, the 4000x4000 block matrix of generate_matrix's other types", assumptions=[EXACT, "options, settings and files are models (see C21)"]),
"C24": dict(title="Fillers, comparisons and deviations follow their definition",
  statement="Fillers give every element its defined value at its row and column (one value, storage-order numbers with a full sparse structure, Hilbert, diagonal; a diagonal of a non-square matrix is rejected), and lists of rows give those rows, in either storage order. A random matrix has the dimensions asked for and elements of either sign whose decimal exponents lie between the negated limits of its settings; equal settings give equal matrices, and the seed matters. Two matrices compare equal exactly when their dimensions and elements agree within the accuracy of the less accurate type, whatever their storage order. Maximal and root mean square deviation equal their definition for matrices of any kind and order, are zero without elements, and different dimensions are rejected.",
  over=["inputs", "configurations"], q="all shapes within the bound including empty ones and pairs of different shapes, all element values, both orders; all finite bit patterns of compared scalars",
  why="Tests compare a few square matrices of one order; rectangular row-major matrices are not sampled.",
  anchors=A([CORE + "MatrixFiller.h", CORE + "StatisticalErrorInformation.h", UTIL + "EqualWithinNumericalAccuracy.h", CORE + "DenseMatrix.h", CORE + "SparseMatrix.h", "src/MatrixFactory/MatrixGenerator.cpp"], ("fillers", CORE + "MatrixFiller.h"), ("comparison", CORE + "DenseMatrix.h"), ("deviations", CORE + "StatisticalErrorInformation.h")),
  units=[U("fillers.cpp", extra=[TRACK]), U("accuracy.cpp", opts=dict(fp=1)), U("generator.cpp"), U("large.cpp", r"^(fill|compare)(_.*)?$", extra=[TRACK])],
  bounds="fillers 0..3 (quick) / 0..5 (thorough) rows and columns; comparisons and deviations of matrices up to 2x2, pairs of every two shapes; |e|<=20000001 for double elements (beyond the integers of a float), 1000 where elements are or become float; random matrices up to 2x2, every seed, draws at both limits and in the middle; large shapes: 67x5, 5x67, 260x1, 1x260, 34x33, 1030x1, 1x1030 with all element values",
  outside="the setting `occupation` of random matrices (the code does not use it) and the quality of the random numbers; non-finite elements; stored zeros of sparse matrices count as elements", assumptions=[EXACT, "std::sqrt is exact: a function whose square is its argument (counterexamples are looked for among true squares)"]),
"C25": dict(title="Printed matrices, tables and timers show every value in its place",
  statement="Printing a dense matrix shows every element once, each row on its own line with its columns aligned and in order, in scientific notation with ten digits, with name and dimension in full output; more than hundred rows or columns are announced instead. Sparse matrices show their value, key and offset arrays, zero matrices and blocks their dimension, split and dynamic matrices what they hold. The tracker's table lists exactly the identifiers with calls, with their number and time, and a timer its label and time at the end of its scope.",
  over=["inputs", "configurations", "histories"], q="all shapes within the bound including empty ones, all element values, all occupation patterns, all members of the dynamic matrix type list, all sequences of calls within the bound",
  why="No test looks at printed text.",
  anchors=A([CORE + "MatrixIO.h", UTIL + "STLHelpers.h", UTIL + "Tracker.h", UTIL + "ScopedTimer.h"], ("matrices", CORE + "MatrixIO.h"), ("tracker table", UTIL + "Tracker.h"), ("timer", UTIL + "ScopedTimer.h")),
  units=[U("printing.cpp", extra=[TRACK])],
  bounds="dense matrices 0..2 (quick) / 0..3 (thorough) rows and columns, sparse ones 0..2, zero ones 0..3; 99..101 elements in one row or column; up to 2 (quick) / 3 (thorough) calls of the tracker out of five identifiers",
  outside="the digits of non-integers (the stream model shows them as one symbol and keeps the value and the format)", assumptions=[EXACT, "streams are the model of harness/streams.h: text, field width, alignment, precision and notation are followed"]),
"C26": dict(title="The benchmark reports name, time and deviation of every action on every pair",
  statement="The benchmark's report has one line for every pair of matrices and every configured action, in order, with the number of the pair, the name of the action, its measured time and the maximum norm and 2-norm of the difference between its result and that of the first action (zero for the first action itself). On request the difference of the last action is stored in a file per pair, as raw doubles, and a file that cannot be written is a failure. The time of an action is the average its measurement reported, for the block-wise action the sum of its parts, which are listed by name. Durations are shown in seconds with the digits asked for and leave the notation of the stream unchanged. Success is announced on success only, a failure names its reason.",
  over=["inputs", "configurations"], q="all pairs, actions and digits within the bound, all element values, all deviations of the back end, all measured times out of five magnitudes (report) or up to 1e6 ns (actions)",
  why="No test runs the benchmark or looks at its report.",
  anchors=A(["src/Benchmark/benchmark.cpp", "src/Benchmark/time.cpp", "src/Benchmark/time.h", "src/Benchmark/ActionBase.h", "src/Benchmark/Action_blasbooster_block.h"], ("table", "src/Benchmark/benchmark.cpp"), ("durations", "src/Benchmark/time.cpp"), ("parts of the block-wise action", "src/Benchmark/Action_blasbooster_block.h")),
  units=[U("tools_report.cpp", inc=["@VERIF@/stubs_env"], extra=[TRACK], libs=["-lboost_system"]), U("actions.cpp", "^times$", inc=["@VERIF@/stubs_env", "/usr/include/eigen3"], extra=[TRACK], libs=["-lboost_system"])],
  bounds="up to two pairs of 2x1 and 1x1 matrices, two actions (three for one pair, each with or without a deviation), accuracies of 0..9 digits; all twelve actions",
  outside="the digits of a printed number (the stream model keeps value and format), real clocks", assumptions=[EXACT, "streams, options, settings and files are models (see C21, C25); BrainTwister::Benchmark reports times the harness chooses"]),
}
NOT_APPLICABLE = [
]
