#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests, "anchors": a})
MAT = ["denseMatrix.go", "csrMatrix.go", "cscMatrix.go"]; VEC = ["denseVector.go", "sparseVector.go"]
CSR = ("compressed arrays", "values + column/row indices + prefix-sum starts: the only record of a compressed matrix's content", "csrMatrix.go CSRMatrix, cscMatrix.go CSCMatrix")
SV = ("sparse vector arrays", "values + sorted indices", "sparseVector.go SparseVector")

p("P01", "Matrix cells read back exactly what was last written",
  "For every matrix format (dense, compressed by rows, compressed by columns) and every supported element type, after any sequence of cell writes, read-modify-writes and clears, reading a cell returns the value most recently written to it, or zero if it was never written or was cleared since. Writing one cell, including overwriting it with zero, never changes what any other cell reads as. A read-modify-write calls its function exactly once, with the cell's current value. The object reads as before the write while the function runs, and still does when it panics.",
  ["histories", "inputs", "configurations"], "every operation history, every shape, every element type, every value",
  "Tests fill one 2x2..7x7 float64 matrix in row order and read it once; no history of overwrites, removals and out-of-order inserts, and no type but float64, is ever exercised.",
  MAT, [("binary search + insert/remove with prefix-sum shift", "csrMatrix.go UpdateReturnPointer/insert/remove/columnIndex; cscMatrix.go rowIndex"), ("direct array store", "denseMatrix.go Update/Set/At")],
  ["At", "Set", "Update", "Clear", "SetReturnPointer", "UpdateReturnPointer"], [CSR])
p("P02", "Vector elements read back exactly what was last written",
  "For dense and sparse vectors of every element type, after any sequence of element writes, read-modify-writes and clears - addressed by position or as a one-column matrix, in any order of positions - reading an element returns the value most recently written to it, or zero if none. Resizing a dense vector to n keeps its first min(old length, n) elements, fills any new ones with zero, and makes its length n.",
  ["histories", "inputs", "configurations"], "every operation history and every order of positions, every length and element type",
  "Tests set two or three leading positions in ascending order; positions beyond the number of stored elements, descending orders, removals and resizing are never tried.",
  VEC, [("sorted index search, insert, remove", "sparseVector.go index/insert/remove"), ("ReSize", "denseVector.go ReSize")],
  ["AtVec", "SetVec", "At", "Set", "Update", "Clear", "ReSize", "Length"], [SV])
p("P03", "Enumeration and element counts are exact",
  "Enumerating any matrix or vector yields every nonzero cell exactly once with its position and value and then ends; the compressed formats yield nothing else, and the dense formats yield every cell exactly once (order is not specified). The reported element count equals the number of elements enumerated, and the reported size and dimensions always equal those the object was created (or resized) with.",
  ["histories", "inputs", "configurations"], "every content reachable by any history, every shape including empty rows, empty columns and empty matrices",
  "Tests enumerate one 3x3 pattern; empty leading/trailing rows, single-row, empty and post-removal patterns are a combinatorial family.",
  MAT + VEC, [("iterators walking the start pointers", "csrMatrix.go cSRMatrixIterator; cscMatrix.go cSCMatrixIterator; sparseVector.go sparseVectorIterator; dense*.go iterators"), ("zero values are never stored", "insert/remove of the compressed formats")],
  ["Enumerate", "HasNext", "Next", "Values", "Size", "Rows", "Columns", "Length"], [CSR, SV])
p("P04", "In-place mapping visits each element once and stores each result",
  "Mapping over a matrix or vector in place visits every stored element exactly once, passing its position and the value it had before the mapping, and afterwards each visited cell holds the function's result and every other cell is unchanged. This holds for every function, including one that returns zero for some or all elements, which removes them from a compressed format without skipping, revisiting or disturbing any other element. A mapping left before its end has had exactly these effects for the elements visited so far.",
  ["inputs", "histories", "configurations"], "every content, every assignment of results (including zeros) to elements",
  "Tests map with the identity only; a map whose function returns zero changes the structure being iterated and is never tried.",
  MAT + VEC, [("map iterators that write or remove at the cursor", "csrMatrix.go cSRMatrixMap.Map; cscMatrix.go cSCMatrixMap.Map; sparseVector.go sparseVectorMap.Map; dense*.go")],
  ["Map", "HasNext", "At", "Enumerate", "Values"], [CSR, SV])
p("P05", "Row and column extraction returns exactly that row or column",
  "Extracting row r or column c of any matrix or vector, as a vector or as a plain array, returns one with the right length whose i-th element is the corresponding cell of the source, for every content, shape, format and index. Extraction never changes the source.",
  ["inputs", "configurations"], "every content, shape, row and column",
  "Tests extract row 0 and column 0 of one 2x2 matrix.",
  MAT + VEC, [("slice of one compressed line, or a search in every line", "csrMatrix.go RowsAt/ColumnsAt/RowsAtToArray; cscMatrix.go; denseMatrix.go; vectors")],
  ["RowsAt", "ColumnsAt", "RowsAtToArray"], [CSR, SV])
p("P06", "Copies and results are independent; operations leave operands unchanged",
  "A copy equals its source, and a copy, an extracted row or column, or the result of any operation shares nothing with the objects it came from: writing to either side afterwards never shows on the other. No operation changes any of its input operands or its mask (unless that operand was passed as the output).",
  ["histories", "inputs", "programs"], "every operation, every content, every later write on either side",
  "Tests look only at the value of a result and never write to the source or the result afterwards, nor re-read the operands.",
  MAT + VEC + ["operators.go", "math", "breadthfirst", "sort"], [("element-wise copying into fresh storage", "Copy/CopyLogical of each format"), ("results built in fresh storage", "methods of each format, operators.go")],
  ["Copy", "CopyLogical", "Transpose", "Negative", "Scalar", "Add", "Subtract", "Multiply", "RowsAt", "ColumnsAt"])
p("P07", "Equality means same shape and same values, whatever the format",
  "Two matrices or vectors compare equal exactly when they have the same number of rows and columns and equal values in every cell, regardless of the storage format of either side, the order of the two sides, the element type, or the history that produced them. Not-equal is always the negation, and a nil comparand equals only nil.",
  ["inputs", "configurations"], "every pair of contents, formats, shapes and element types",
  "Tests compare equal matrices against a dense expectation and one wholly different one; near-misses (one differing cell, zero on one side only) across formats and types are not tried, and a wrong equality would hide failures in every other test.",
  ["operators.go", "matrixRegistry.go"] + MAT + VEC, [("count comparison and one-sided enumeration chosen by sparse classification", "operators.go Equal"), ("sparse classification", "matrixRegistry.go IsSparseMatrix")],
  ["Equal", "NotEqual"])
p("P08", "Invalid indices and mismatched operands are rejected without effect",
  "Every element, row or column access with an index outside the object's dimensions, and every operation whose operands or mask do not have compatible dimensions (inner dimensions for products, equal shapes for element-wise, add and subtract, mask shape equal to output shape), panics. After the rejected call the operands, mask and output read exactly as before it and remain fully usable.",
  ["inputs", "configurations"], "every out-of-range index (negative, equal to, beyond the bound), every incompatible pair of shapes, every format and operation",
  "No test exercises a rejection.",
  MAT + VEC + ["operators.go"], [("bounds checks", "each accessor of each format"), ("shape checks", "operators.go")],
  ["panic of At/Set/Update/RowsAt/ColumnsAt/RowsAtToArray/AtVec/SetVec/Element and of the operators"])
p("P09", "Matrix product equals the mathematical product",
  "Multiplying an m-by-k by a k-by-n operand gives the m-by-n matrix whose (i,j) entry is the sum over l of A(i,l)*B(l,j) in the arithmetic of the element type, for every combination of operand formats (matrices and vectors) and, for the operator form, every output format and every previous content of the output.",
  ["inputs", "configurations"], "every pair of contents and compatible shapes, every combination of formats, every element type",
  "One 2x3 by 3x2 dense example with no zeros; sparse operands with zeros, other shapes, vector operands and non-empty outputs are never multiplied.",
  ["operators.go"] + MAT + VEC, [("row-by-column inner products", "operators.go multiply"), ("Multiply methods choosing the result shape", "each format")],
  ["Multiply", "MatrixMatrixMultiply"])
p("P10", "Matrix-vector and vector-matrix products are exact",
  "Multiplying a matrix by a vector, in either argument order of the two operators, writes to the output vector for each row i the sum over j of A(i,j)*v(j), for every matrix format, dense or sparse input vector, dense or sparse output vector, and any previous content of the output.",
  ["inputs", "configurations"], "every content, shape and format combination",
  "One 3x2 dense example; sparse vectors and pre-filled outputs are never used.",
  ["operators.go"] + VEC, [("multiply", "operators.go MatrixVectorMultiply/VectorMatrixMultiply")], ["MatrixVectorMultiply", "VectorMatrixMultiply"])
p("P11", "Addition and subtraction are exact for every sparsity pattern",
  "The sum and difference of two matrices or vectors of equal shape hold A(i,j)+B(i,j) and A(i,j)-B(i,j) in every cell, including cells where only one, or neither, operand has a nonzero value and cells where the result cancels to zero. This holds for every combination of formats, for the methods and for the operators writing into an empty output of any format or over one of their operands.",
  ["inputs", "configurations"], "every pair of sparsity patterns and values, every combination of formats",
  "The tests' first operand is full, so cells present only in the second operand, the case that separates the formats, are never checked.",
  ["operators.go"] + MAT + VEC, [("enumeration of one operand and lookup in the other", "operators.go Add/Subtract")], ["Add", "Subtract"])
p("P12", "Scaling and negation are exact",
  "Multiplying a matrix or vector by a scalar multiplies every cell by it, and negation negates every cell, in the arithmetic of the element type, for every format and every scalar including zero and values whose products wrap to zero; the negation operator does so in place as well. The result keeps the source's shape and the source is unchanged.",
  ["inputs", "configurations"], "every content, scalar, format and element type",
  "Tests scale one full matrix by 2; scaling by zero changes the structure being iterated and is never tried; the negation operator is never called with an output that is not already a copy.",
  ["operators.go"] + MAT + VEC, [("copy then in-place map", "operators.go Scalar"), ("Negative", "operators.go Negative")], ["Scalar", "Negative"])
p("P13", "Transposition swaps rows and columns exactly",
  "The transpose of an r-by-c matrix or vector is c-by-r with cell (j,i) equal to the source's (i,j), for every format, content and element type including logical values, whether produced by the method, by the operator into an empty output of any format, or by conversion to a compressed format. Transposing twice gives back an equal matrix.",
  ["inputs", "configurations"], "every content, shape and format",
  "One full 2x3 matrix.",
  ["operators.go"] + MAT + VEC, [("enumerate and set with swapped coordinates", "operators.go Transpose/TransposeToCSR/TransposeToCSC")], ["Transpose", "TransposeToCSR", "TransposeToCSC"])
p("P14", "Element-wise multiply intersects and element-wise add unites",
  "Element-wise multiplication of equally shaped operands gives A(i,j)*B(i,j) in every cell. Element-wise addition gives a result that is nonzero exactly where at least one operand is nonzero, with the value of the only nonzero operand where just one is, and the second operand's where both are (the first one's, when the output is the second). Both hold for every format, for rectangular shapes, for an empty output, and when the output is the same object as either operand.",
  ["inputs", "configurations"], "every pair of contents, every format combination, separate and aliased outputs",
  "Tests use 0/1 square 7x7 data, with one aliased case per operator.",
  ["operators.go"], [("enumeration of one side, lookup or update of the other; aliasing branches", "operators.go elementWiseMultiply/elementWiseAdd")],
  ["ElementWiseMatrixMultiply", "ElementWiseVectorMultiply", "ElementWiseMatrixAdd", "ElementWiseVectorAdd"])
p("P15", "Applying a unary operator maps every element in place or to an output",
  "Applying a zero-preserving unary operator to a matrix or vector gives, at every position, the operator's result for that position's value; this is the same whether the output is a separate empty object of any format and the same shape or the input itself, including when results are zero.",
  ["inputs", "configurations"], "every content, shape, format pair and unary function on the value domain, separate and in-place output",
  "There is no test of this operator at all.",
  ["operators.go", "unaryop/unaryOp.go"], [("in-place map or enumerate-and-set", "operators.go Apply")], ["Apply"])
p("P16", "Masks protect exactly the masked positions",
  "An operator given a mask leaves every output position where the mask is true exactly as it was, and writes the positions where the mask is false just as it would without a mask; a reduction skips exactly the masked elements. A mask position is true exactly when its value is nonzero, for masks of any format and sign; no mask and the empty mask protect nothing.",
  ["inputs", "configurations"], "every mask, operand and previous output content, every mask and output format, every masked operator",
  "No test passes a mask (only the breadth-first search does, with one).",
  ["operators.go", "mask.go"] + MAT + VEC, [("mask.Element consulted per output position", "operators.go"), ("Element", "each format; mask.go EmptyMask")],
  ["Element", "NewEmptyMask", "all operators taking a mask"])
p("P17", "Reductions equal the fold of the monoid, whatever the format",
  "Reducing a matrix or vector to a scalar returns the monoid's operation folded, starting from its identity, over the elements (each exactly once; the default is the sum), and reducing a matrix to a vector does so per column (the default is the maximum with zero). The result is the same for every format holding the same values when the operation is commutative and associative and ignores zero, the call always returns, and no goroutine is left behind, under every goroutine schedule.",
  ["inputs", "schedules", "configurations"], "every content and format, every interleaving of producer, reducer and caller",
  "Tests reduce one 0/1 matrix under whatever schedule the runtime happens to choose.",
  ["operators.go", "binaryop/monoID.go", "default.go"], [("producer goroutine, streaming reducer and done signal", "operators.go ReduceMatrixToScalarWithMonoID; binaryop/monoID.go Reduce"), ("default monoids", "default.go")],
  ["ReduceMatrixToScalar", "ReduceVectorToScalar", "ReduceMatrixToVector", "...WithMonoID"])
p("P18", "Construction and sparse classification agree for every element type",
  "Building a matrix or vector from an array gives every format the array's shape and values, new objects are entirely zero, and later changes to the array never reach a compressed object. The compressed formats are classified as sparse, and the dense formats as not sparse, for every supported element type.",
  ["inputs", "configurations"], "every array content and shape, every element type and format",
  "Tests build from one full 2x3 array and classify float64 matrices only.",
  ["matrixRegistry.go"] + MAT + VEC, [("New...FromArray", "each format"), ("registry keyed by type name", "matrixRegistry.go")], ["New*", "New*FromArray", "IsSparseMatrix", "RegisterMatrix"])
p("P19", "A streamed monoid reduction folds every value, in order, on every schedule",
  "A monoid's streaming reduction delivers exactly one result, the left fold from its identity over all values sent before completion was signalled, in the order sent, and then ends its output; neither the interleaving of sender, reducer and receiver, nor buffering of the value stream, nor closing the stream before signalling, can lose, duplicate, reorder or add a value, and no goroutine is left behind. Reductions running at the same time do not affect each other.",
  ["schedules", "inputs"], "every interleaving, every short value sequence, buffered and unbuffered streams, signal by send or by close, non-commutative operations",
  "One value under one schedule; loss through select's random choice needs a particular schedule.",
  ["binaryop/monoID.go"], [("goroutine selecting over values and done", "binaryop/monoID.go Reduce")], ["MonoID.Reduce", "MonoID.Zero"])
p("P20", "Cancellation at any moment returns cleanly and never corrupts",
  "If the context is cancelled before or at any point during an operation, the operation still returns - it never hangs, spins or panics - and leaves no goroutine behind; operands and masked positions are untouched, and for products, sums, differences, scaling, negation, transposition, element-wise multiplication and application each output cell holds either its previous value or its correct final value. If the context is cancelled before the call the output is left entirely unwritten, and a cancelled sort still returns a permutation of its rows or columns.",
  ["fault_sequences", "schedules", "inputs"], "every cancellation point of every context-taking operation",
  "No test cancels a context.",
  ["operators.go", "math/strassen/strassen.go", "breadthfirst/breadthFirst.go", "sort/bubble.go"], [("ctx.Done polled per element", "operators.go loops; strassen.go; bubble.go via Compare")],
  ["every function taking a context"])
p("P21", "Concurrent reads and unrelated operations never interfere",
  "Operations that only read a matrix, vector or mask never write to it, so any number of goroutines may read the same object at the same time (element and mask reads, enumeration, extraction, copying, comparison, use as an operand), and goroutines working on unrelated objects never affect each other. There is no data race and every result equals the one obtained alone.",
  ["schedules", "inputs"], "every pair of reading operations on every format, every interleaving",
  "Tests are single-threaded and CI does not use the race detector on shared objects.",
  MAT + VEC + ["operators.go", "matrixRegistry.go"], [("reads that do not go through the update path; no shared scratch state", "At/Element of each format; operators.go")],
  ["all read-only methods and operators"], hook="none: checks build an automatically instrumented copy of the working tree")
p("P22", "The lock-protected matrix is linearizable and transparent",
  "Concurrent calls on a lock-protected matrix - reads, writes, read-modify-writes, clears, counts, comparisons, extraction, copying, enumeration and arithmetic - are free of data races and every history of results is one that some sequential order of the calls consistent with real time could produce on the wrapped matrix, with no update lost. Used by one goroutine, the wrapper behaves exactly as the matrix it wraps.",
  ["schedules", "histories", "configurations"], "every interleaving of 2-3 goroutines with 1-2 calls each over every pair of methods, every wrapped format",
  "No test touches the wrapper, and a test would see one schedule.",
  ["mutexMatrix.go"], [("RWMutex held around each delegated call", "mutexMatrix.go")], ["all MutexMatrix methods"],
  hook="none: checks build an automatically instrumented copy of the working tree")
p("P23", "The lock-protected matrix never wedges",
  "No combination of concurrent calls on a lock-protected matrix deadlocks. A call that panics - an invalid index, mismatched operands, or a panic of the caller's own update function - releases the lock and leaves the content unchanged, so every other and later call completes.",
  ["schedules", "fault_sequences"], "every interleaving of calls including panicking ones, with writer-preferring lock semantics",
  "No test touches the wrapper; a leaked lock needs a failing call followed by another.",
  ["mutexMatrix.go"], [("deferred unlock", "mutexMatrix.go")], ["all MutexMatrix methods"])
p("P24", "Strassen multiplication equals the ordinary product on every schedule",
  "Strassen multiplication returns the same matrix as the ordinary product for every pair of compatible operands - any size (odd, rectangular, not a power of two), any crossover point, any format - whatever order its concurrent sub-products finish in, and leaves no goroutine behind.",
  ["inputs", "schedules", "configurations"], "every size and crossover, every completion order of the sub-products",
  "One 4x4 example at crossover 2 under one schedule.",
  ["math/strassen/strassen.go"], [("seven concurrent sub-products collected over a channel, recombined by index", "strassen.go MultiplyCrossoverPoint/subMatrixM")], ["Multiply", "MultiplyCrossoverPoint"])
p("P25", "Row reduction produces the reduced row echelon form",
  "For a floating-point matrix whose elimination is exactly representable, row reduction returns the unique reduced row echelon form of the input - leading ones, zeros above and below each, zero rows last - for every shape, rank and pattern of zeros and for every format, and leaves the input unchanged.",
  ["inputs", "configurations"], "every small matrix over small integer alphabets, every shape and format",
  "One full-rank 3x4 example.",
  ["math/reduced/reduced.go"], [("Gauss-Jordan with row swaps", "reduced.go Reduced")], ["Reduced"])
p("P26", "Symmetry predicates are exact",
  "A matrix is reported symmetric exactly when it is square and every cell equals its mirror cell, and skew-symmetric exactly when it is square and every cell equals the negation of its mirror cell (so its diagonal is its own negation), for every content, shape, format and element type.",
  ["inputs", "configurations"], "every content and shape, every format and type",
  "Tests assert the positive answer on one matrix each and never a negative one.",
  ["math/symmetric/symmetric.go", "math/skewsymmetric/skewSymmetric.go"], [("compare with transpose", "symmetric.go"), ("compare negated transpose", "skewSymmetric.go")], ["Symmetric", "SkewSymmetric"])
p("P27", "Breadth-first search visits exactly the vertices at each distance",
  "Breadth-first search over an adjacency matrix with nonnegative weights (cell (i,j) an edge from j to i) passes its callback, at step k, a vector whose nonzero positions are exactly the vertices at distance k from the source, so no vertex appears twice and none reachable is missed. It stops at the first step the callback accepts and returns that step's vector, never makes more steps than there are vertices, and returns an all-zero vector when no step is accepted.",
  ["inputs", "histories", "configurations"], "every graph up to a size, every source and stopping step, every format",
  "One 7-vertex graph from one source with one stopping condition.",
  ["breadthfirst/breadthFirst.go", "operators.go"], [("masked matrix-vector product with visited as mask", "breadthFirst.go Search")], ["Search"])
p("P28", "Rune matrices are ordered lexicographically",
  "For rune matrices or vectors of equal shape holding valid characters, comparison returns 0 exactly when they are equal and otherwise -1 or +1 according to the lexicographic order of their cells read row by row, so it is antisymmetric and transitive; less and greater agree with it, and the string form is the cells row by row, whatever the format.",
  ["inputs", "configurations"], "every pair and triple of contents over an alphabet with multi-byte and zero runes, every format",
  "Compare, Less, Greater and String have no direct test.",
  ["operators.go"], [("string of all cells", "operators.go String/Compare/Less/Greater")], ["Compare", "Less", "Greater", "String"])
p("P29", "Sorting permutes rows or columns into order",
  "Sorting the rows (columns) of a rune matrix returns a matrix of the same shape whose rows (columns) are a permutation of the input's, including duplicates, in non-decreasing lexicographic order, for every content, shape and format; the input is unchanged.",
  ["inputs", "configurations"], "every small matrix over a small alphabet, every shape and format",
  "One 3x3 example per function.",
  ["sort/bubble.go", "operators.go"], [("exchange sort with whole-line swaps", "bubble.go BubbleRow/BubbleColumns")], ["BubbleRow", "BubbleColumns"])
p("P30", "Operators compute their stated function on the whole domain",
  "Each arithmetic, selection, minimum/maximum, comparison and logical operator, and each unary operator, returns its stated mathematical function of its arguments (in the element type's arithmetic) for every pair of arguments and every element type. A monoid reports the identity and applies the operation it was built from, and the default monoids are addition from zero and maximum from zero.",
  ["inputs", "configurations"], "the whole domain of 8-bit types and of bool, boundary grids of the others",
  "Three tuples of float32 per operator.",
  ["operators/arithmetic.go", "operators/comparison.go", "operators/other.go", "operators/boolean.go", "binaryop/operators.go", "unaryop/unaryOp.go", "default.go"],
  [("function literals wrapped as operators", "operators/*.go, binaryop/operators.go")], ["Apply of every operator", "MonoID.Zero"])
p("P31", "Composed computations do not depend on storage format or history",
  "Any short program that composes the library's operations (writes, copies, transposition, scaling, negation, addition, subtraction, product, element-wise operations, application, extraction), feeding results of one into the next, yields the same values and the same counts as the mathematical model, whichever formats its inputs were created in and whatever writes produced them.",
  ["programs", "histories", "configurations"], "every program up to a depth over small operands, every mix of formats",
  "Every test makes one operation on freshly filled matrices; none feeds a result into another operation.",
  ["operators.go", "default.go"] + MAT + VEC, [("all of the above together", "whole package")], ["all of Matrix"])
p("P32", "Contexts with a mode report it and are otherwise transparent",
  "A context built with a mode reports that mode, and that it has one; a context with no mode anywhere in its chain reports blocking and none. In every other respect it is its parent: the same deadline, the same values, done exactly when the parent is and with the same error and cause, in chains of any nesting. Every operation under a context with either mode has the result it has under the parent, complete when the call returns.",
  ["inputs", "programs", "configurations"], "every chain of wrappers up to a depth, every cancellation in it, every operation, format and mask under every mode",
  "No test creates a context with a mode.",
  ["context.go", "operators.go"], [("wrapper embedding the parent context", "context.go NewContext/BlockingMode")], ["BlockingMode", "Mode", "Deadline", "Done", "Err", "Value", "every operation taking a context"])
p("P33", "Operations serve every implementation of the interfaces",
  "Every operation taking a matrix or vector through its interface has the results and effects stated in the other properties when an operand or output is an implementation of the caller's own that honours the interface, alone or mixed with the library's formats, whatever the order in which it enumerates its elements: a dense one, or one storing nonzero elements only whose type has been registered as sparse. Registering a type classifies every instantiation of it as sparse and changes the classification of no other type.",
  ["inputs", "programs", "configurations"], "every operation, content and mix of formats enumerated for the other properties, with own dense, own sparse and own vector types in place of the library's",
  "Tests use the library's own types only, all of which enumerate in row or column order.",
  ["operators.go", "matrixRegistry.go", "matrix.go", "vector.go", "math/strassen/strassen.go", "breadthfirst/breadthFirst.go", "sort/bubble.go"], [("operators written against the interfaces", "operators.go"), ("registry of sparse types by name", "matrixRegistry.go RegisterMatrix/IsSparseMatrix")], ["every operation", "IsSparseMatrix", "RegisterMatrix"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
