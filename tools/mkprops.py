import json
H="include/dsga.hxx"
P=[]
def p(id,title,statement,over,qt,why,mech,state=None,observe=None,hook=None,files=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files or [H],"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
p("C01","Every swizzle accessor reads exactly the components its name spells",
 "For every vector length 1-4 and every legal name over the letters x,y,z,w (1-4 letters, repeats allowed), reading that accessor yields exactly the named components in the order spelled, as a vector of that many components (one letter also reads as a plain scalar). The same holds for owning vectors, views at any offset, view-vectors and const objects, and for element index, data()+sequence(), structured get and the runtime swizzle() function with the same indexes.",
 ["inputs","programs"],"all 494 accessor names of the four lengths (4+30+120+340), all vector kinds, all component values",
 "The tests read a few dozen accessors of a few objects; the accessor tables have hundreds of hand written rows per class and eight such tables, so one wrong row is invisible to a sample.",
 [("union member tables of basic_vector<T,1..4> and basic_view<M,T,1..4>",H+":3503-5790"),("indexed_vector / indexed_view operator[]",H+":2847-3230"),("get<>, swizzle(), sequence()",H+":6980,8370")],
 observe=["accessor value","operator[]","get<I>","swizzle()","data()+sequence()","tuple_size"])
p("C02","Writing through a swizzle changes exactly the named components, alias-safely",
 "Assigning to, set()-ting, indexing or iterating through a writable swizzle changes exactly the components it names, in the order it names them, and leaves every other component and every other object untouched. The right-hand side is read completely before anything is written, so sources that overlap the destination (self-swizzles, overlapping views) give the result of a simultaneous assignment. Accessors that repeat a component, and anything reached through a const object or const view, cannot be written.",
 ["inputs","histories","programs"],"all pairs of writable destination and same-length source accessors, all object kinds, all overlaps, any history of earlier writes",
 "Tests write through a handful of accessors and check the written components; the frame condition (what must not change) and the overlap combinations number in the thousands.",
 [("indexed_vector/indexed_view operator= and set(Args... by value)",H+":2880-3100"),("writable_swizzle",H+":1720"),("vector_base::set",H+":2127")],
 state=[("component cells","the scalar cells that owning vectors, view-vectors and external buffers are made of","basic_vector::base, view_vector::store, external arrays")],
 observe=["full contents of every object and buffer after every operation"])
p("C03","A view is exactly a window on external storage",
 "A view of length N constructed on (or reset to) a pointer p reads and writes precisely p[0..N-1]: every write through the view (or its swizzles, iterators, data()) is seen in the storage and in all other views of it, and every direct write to the storage is seen by the view. Copy-constructing or resetting a view changes only what it refers to and never copies or modifies the elements; assigning through a view changes elements and never what it refers to.",
 ["histories","inputs"],"all interleavings of construct, copy, reset, read, write over views of every length, offset and constness over shared buffers",
 "Tests use one view over one array per case; overlap of several views with resets in between needs histories.",
 [("view_wrapper, basic_view, indexed_view share one pointer through a union",H+":1881-2035, 4667-5790")],
 state=[("view target","pointer to the first element of the window","view_wrapper::store / indexed_view::base"),("buffer","external element array","caller")],
 observe=["buffer contents after each step","address of element 0 of each view"])
p("C04","Owning vectors and view-vectors are values: copies are independent",
 "Copying, converting, moving or assigning from any vector (owning vector, swizzle, view, view-vector) into an owning vector, view-vector or array produces a value that holds the source's components at that moment and shares no storage with it afterwards. Later changes to either side never show in the other, and assignment into a view-vector from any source, including its own swizzles and views of itself, gives the value the source had before the assignment.",
 ["histories","inputs"],"all sequences of copies, conversions, assignments and later mutations, for all kinds of source and destination",
 "Tests copy once and compare; independence after later mutations and overlap of source with destination need histories.",
 [("basic_vector copy/convert constructors and assignment",H+":3552-4660"),("view_vector copy/assign",H+":5801-5890")],
 state=[("component cells","as C02","basic_vector::base, view_vector::store")],observe=["full contents of every object after each step"])
p("C05","swap exchanges whole values and refuses partially overlapping views",
 "Swapping two vectors, view-vectors, matrices or non-overlapping views exchanges their elements completely and changes nothing else; swapping an object or view with itself or with a view of the same window changes nothing. Swapping two views whose windows partially overlap throws std::range_error and leaves all elements as they were, through the member and the free function alike.",
 ["histories","inputs"],"all lengths, all pairs of window offsets, all kinds, member and free swap",
 "Tests try a few swaps; the overlap boundary depends on every pair of offsets and length.",
 [("view_wrapper::swap, basic_view::swap, storage_wrapper::swap, basic_vector::swap, basic_matrix::swap and the free functions",H+":1960-2040, 5795, 8600")],
 observe=["elements after swap","exception type"])
p("C06","Iteration visits the logical components, with random-access laws",
 "For every vector kind (owning, swizzle, view, swizzle of a view, view-vector, matrix) begin()..end() visits exactly the logical components in order, rbegin()..rend() the reverse, and cbegin/cend the same through const. Iterators obey the random-access laws (it+n, n+it, it-n, +=, -=, ++, --, difference, ordering, it[n], *(it+n)) for every position from begin to end inclusive, and writing through a mutable iterator changes exactly that component, so standard algorithms work on them.",
 ["inputs","histories"],"all vector kinds and accessors, all positions and offsets that stay within [begin,end], all algorithms used through iterators",
 "Tests iterate forward over few swizzles; the position x offset x kind grid and the end position are not visited.",
 [("indexed_vector_(const_)iterator, indexed_view_(const_)iterator",H+":2318-2840"),("begin/end families",H+":2140-2160")],
 state=[("cursor","current logical position 0..Count","mapper_index")],observe=["dereferenced values","differences","comparisons"])
p("C07","Arithmetic operators act component by component with C++ scalar semantics",
 "For unary +/- and binary + - * / on any two vectors of equal length, or a vector and a scalar on either side, or a vector and a length-1 vector or single-letter swizzle on either side, component i of the result is exactly the C++ scalar operation on component i (or on the single value) after converting to the common type; the result is an owning vector of the common type (a plain scalar when both sides have one component) and no operand changes. This holds for all element type combinations and all vector kinds.",
 ["inputs","programs"],"all element types, lengths, operand kinds, operand shapes and values for which the scalar operation is defined",
 "Tests use one or two values for a few type pairs, mostly float or int and mostly owning vectors.",
 [("operators and machinery::apply_unitype_make / apply_make",H+":5906-6500")],
 observe=["result components","result element type","operands after the call"])
p("C08","Modulus, shift and bitwise operators follow fixed-width integer semantics",
 "For % << >> & | ^ ~ on integral vectors, scalars and length-1 vectors, in every shape the library accepts, component i of the result is exactly the C++ fixed-width integer operation on component i (or the single value), with the operand order preserved and, for % & | ^, both operands first converted to the common type. No operand changes, for every mix of int, unsigned, long long and unsigned long long.",
 ["inputs","programs"],"all integral element types, lengths, kinds, shapes, all values incl. extremes and all in-range shift counts",
 "Tests use small positive ints; sign, width and operand order errors appear only for mixed widths, negative or asymmetric values.",
 [("operators % << >> & | ^ ~",H+":6230-6480"),("machinery::apply_multitype_make",H+":6020-6070")],
 observe=["result components","result element type"])
p("C09","Compound assignment and ++/-- equal the operator followed by assignment",
 "For every compound assignment (+= -= *= /= %= <<= >>= &= |= ^=) with a vector, scalar or length-1 right-hand side, the destination (vector, writable swizzle, view, view-vector) ends as if the plain operator were applied to all old components and the results then assigned; other components do not change, even if the right-hand side overlaps the destination, and the expression returns the destination itself. Prefix ++/-- change every component by one and return the object; postfix forms do the same and return the previous value.",
 ["inputs","histories"],"all operators, element types, kinds, shapes and overlaps",
 "Tests use few operands per operator and nearly no overlap between the two sides.",
 [("compound assignment operators, ++, --",H+":6500-6800"),("machinery::apply_*_modify",H+":6080-6130"),("matrix compound operators",H+":8900-9140")],
 state=[("component cells","as C02","")],observe=["destination components","returned reference identity","untouched components"])
p("C10","Comparison, logical and equality functions are component-wise and NaN-correct",
 "lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual return the bool vector (plain bool for one component) of scalar comparisons of corresponding components; compNot/compAnd/compOr are component-wise and any/all/none are the disjunction, conjunction and negated disjunction over all components. Operator == is true exactly when all components compare equal (so never with a NaN on either side), != is its negation, also across mixed element types, vector kinds and matrices.",
 ["inputs","programs"],"all lengths, kinds, element types, values incl. NaN, infinities and signed zeros",
 "Tests compare a few vectors; a wrong relation often agrees on the sampled values and only one component position decides any/all.",
 [("lessThan..none",H+":7007-7250"),("operator ==",H+":8396-8440, 8740")],observe=["returned booleans"])
p("C11","apply, query, shift, cshift, min, max and sum act on the logical sequence",
 "On every vector kind, apply(f) and query(p) call the callable exactly once per component in index order and return the results in place; shift(n) moves components n places left (right if negative) filling with zero, and cshift(n) rotates them, for every int n. min(), max() and sum() return the least, greatest and total of the components, and none of these change the object.",
 ["inputs"],"all kinds, lengths, element types and every shift count including the extremes of int",
 "Tests call each on one or two vectors with a few shift counts.",
 [("vector_base::apply..sum",H+":2170-2270")],observe=["returned vector","call order","object after the call"])
p("C12","Construction flattens arguments in order and converts element-wise",
 "A vector or view-vector built from any legal mix of scalars, vectors, swizzles, views and matrices holds the first N scalars of the arguments' flattened components (matrices column by column) in argument order, each converted as by static_cast; a single scalar fills every component, and a longer vector is truncated. Argument lists with too few components, or whose last argument would not be used at all, are rejected at compile time, and arguments are never changed.",
 ["inputs","programs"],"all argument-shape combinations up to 4 components, all element types and kinds",
 "Tests list some shapes with one value each; the shape space is combinatorial.",
 [("component_match, flatten_args_to_tuple, constructors",H+":3231-3500, 3552-4660, 5801-5860")],observe=["components after construction","constructibility"])
p("C13","Matrices are column-major and their construction, resizing and access agree",
 "A C-by-R matrix is C columns of R elements: m[c][r], data/array conversion, row(r) and iteration all address the same element, and writing one element changes only it. Building from scalars, column vectors or mixes fills in column-major order, a single scalar gives that value on the diagonal and zero elsewhere, pointer and array constructors read C*R consecutive elements column by column, and converting from another size copies the common block and takes the remaining elements from the identity (square target) or zero.",
 ["inputs","programs"],"all nine shapes, both element types, all shape pairs for conversion, all positions",
 "Tests check a few shapes with few entries; index transposition errors hide in square or symmetric samples.",
 [("basic_matrix",H+":8445-8680"),("to_matrix/to_array",H+":9345-9410")],observe=["all elements","row()","columns"])
p("C14","Matrix arithmetic is the linear algebra it denotes",
 "For all conforming shapes, M*v, v*M and A*B are the standard products of column-major matrices; matrix +,-,/ and scalar *,+,-,/ (either side), unary +/- and ++ and -- (before and after) act element by element. matrixCompMult, outerProduct, transpose, cross_matrix and diagonal_matrix give the matrices they are named for, for every argument whose exact result is representable.",
 ["inputs","programs"],"all shape triples, both element types, all vector kinds, all values with exactly representable results",
 "Tests multiply a few sample matrices, mostly square; index mistakes for a single shape triple are not visited.",
 [("matrix operators and functions",H+":8681-9140")],observe=["all result elements","operands unchanged"])
p("C15","determinant and inverse are exact cofactor algebra",
 "For 2x2, 3x3 and 4x4 matrices determinant(m) is the Leibniz determinant and inverse(m) is adjugate/determinant, so that for matrices of small integers with determinant a power of two the results are exact and m*inverse(m) is the identity. Swapping two columns negates the determinant and transposition leaves it unchanged.",
 ["inputs"],"all integer matrices with small entries (each cofactor position and permutation sign exercised)",
 "Tests invert a few matrices; each of the 16 cofactors has its own hand written expression and a sign or index slip can cancel on a sample.",
 [("determinant 2/3/4, inverse 2/3/4",H+":8800-8900")],observe=["determinant","all inverse elements"])
p("C16","Rounding functions are exact on every floating point value",
 "floor, ceil, trunc, round (half away from zero), roundEven (half to even) and fract, on vectors and scalars of float and double, return exactly the mathematically defined integer (for fract, the correctly rounded value of x-floor(x), never negative) for every finite input, including values next to a half, values with magnitude beyond the mantissa, subnormals and both zeros. abs and sign return the magnitude and the sign for every non-NaN value, integers and infinities included.",
 ["inputs"],"all finite (and for abs/sign infinite) float and double values in any component position",
 "Tests use a few quarters and halves; the errors live at ties, near ties and magnitude boundaries.",
 [("cxcm rounding functions",H+":480-700,900-1450"),("floor..fract vector functions",H+":7620-7740")],observe=["bits of the result"])
p("C17","Common functions pick, blend and decompose component-wise as defined",
 "min, max, clamp, mix (blend and boolean select), step, smoothstep, mod, modf, fma, frexp and ldexp return in component i exactly their defined scalar result on component i of each argument, with scalar arguments broadcast where accepted. min/max/clamp/step/select always return one of their inputs (or 0/1), modf and frexp decompose so that the parts recombine to the input exactly, and the output parameter receives the other part in the same component.",
 ["inputs","programs"],"all lengths, kinds, argument shapes, element types and values in each function's documented domain",
 "Tests check one vector per function; argument order and per-component selection mistakes agree on symmetric samples.",
 [("mod..ldexp",H+":7734-8190")],observe=["result components","output parameter"])
p("C18","Geometric functions satisfy their defining formulas",
 "dot and innerProduct, cross, length, distance, normalize, faceforward, reflect and refract equal their GLSL definitions on every input whose intermediate values are exactly representable, for all lengths and all combinations of vector kinds (the cross overloads agree with each other). Boundary cases hold: length and distance are never negative, normalize of a zero vector is all NaN, faceforward with a non-negative dot product returns -N, refract returns the zero vector exactly when the radicand is negative.",
 ["inputs","programs"],"all lengths, kinds, and values with exact intermediates, with both sides of every branch",
 "Tests have a few vectors each; branch boundaries and overloads by vector kind are mostly unvisited.",
 [("innerProduct..refract",H+":8225-8360")],observe=["result components"])
p("C19","Bit reinterpretation, byteswap and NaN/inf classification are exact",
 "floatBitsToInt/Uint, doubleBitsToLongLong/UlongLong and their inverses preserve every bit pattern, component by component, and round-trip to the identical bits; byteswap reverses the bytes of each component and is an involution. isnan and isinf report exactly the components that are NaN or infinite, for every vector kind they accept.",
 ["inputs"],"all bit patterns of 32 and 64 bit values in every component position",
 "Tests convert a couple of ordinary values; patterns such as NaN payloads, infinities, negative zero and asymmetric bytes are not covered.",
 [("floatBitsToInt.., byteswap, isnan, isinf",H+":7950-8130, 8190-8210")],observe=["bits of the results"])
p("C20","Array, tuple and memory-layout interoperability preserve values and order",
 "to_vector, to_array and to_matrix, structured bindings and get<I>/tuple_size/tuple_element, and data()/size()/length() present the same elements in the same logical order as indexing, for every vector kind, and round-trip unchanged. An owning vector of N elements occupies exactly N consecutive elements, matrices likewise, so data() can be handed to array-based APIs.",
 ["inputs","programs"],"all lengths, shapes, element types and kinds",
 "Tests convert a few samples; order mistakes vanish in symmetric data.",
 [("to_vector, to_array, to_matrix, tuple protocol, get",H+":9330-9526, 6980")],observe=["elements","sizes","addresses"])
p("C21","Mixed lengths, illegal writes and bad arguments are rejected as documented",
 "Operations that make no sense never silently compile or proceed: operators and functions on operands of different lengths greater than one, assignments of another length to a swizzle, view or view-vector (an owning vector may be built from a longer one, which truncates, but never from a shorter one), writes through const or repeated-component accessors, bool arithmetic, narrowing implicit conversions and mismatched matrix products do not compile. At run time, constructing a matrix from a null pointer throws std::invalid_argument, the runtime swizzle() with an index at or beyond the length throws std::out_of_range when assertions are disabled, swapping partially overlapping views throws std::range_error, and no failed call changes any object.",
 ["inputs","programs","configurations"],"all combinations of lengths, kinds, element types, and all out of range arguments",
 "A test that compiles cannot show what must not compile, and the suite is built with assertions so the throwing paths are hardly run.",
 [("requires clauses on operators, constructors, swizzles",H),("swizzle(), basic_matrix pointer constructor",H+":8365-8392, 8520")],observe=["well-formedness of expressions","exception type"])
p("C22","Elementary functions apply the standard scalar function to each component",
 "radians, degrees, sin..atanh, pow, exp, log, exp2, log2, sqrt, inversesqrt and both atan forms return in component i exactly the corresponding scalar function of component i (of both arguments for two-argument forms, in the documented order), as the same call on the scalars would, for every vector kind and length. The scalar forms are the C++ standard library functions (for inversesqrt a value within rounding error of 1/sqrt).",
 ["inputs","programs"],"all lengths, kinds, both floating types, all arguments in the function's domain",
 "Tests compare a vector of 4 with the library's own scalar overload, so a wrong underlying function or a per-length mistake is not seen.",
 [("8.1 and 8.2 function sections",H+":7255-7610")],observe=["result components"])
p("C23","Compile-time and run-time evaluation agree",
 "Construction, element access, iteration, assignment, operators, comparisons, rounding, common, square root, bit, geometric and matrix functions can be evaluated in constant expressions on vectors, views and matrices, and give there the same value as at run time on the same input, for every input of the function's domain with a finite result. (Swizzle accessors such as v.zy are inactive union members and run-time only, and so is swapping views of unrelated arrays.)",
 ["inputs","configurations"],"all constexpr functions, all inputs within their domain",
 "The tests evaluate at run time (or compile time) only; several functions have separate compile-time implementations that only constant evaluation reaches.",
 [("is_constant_evaluated branches of cxcm",H+":1290-1500")],observe=["bits of constexpr result and of run-time result"])
p("C24","fast_inversesqrt approximates 1/sqrt(x) to a few ulps",
 "For every positive normal input, fast_inversesqrt and inversesqrt return a value within a few units in the last place of 1/sqrt(x).",
 ["inputs"],"all positive normal float and double values",
 "Tests check a handful of values.",
 [("cxcm::fast_rsqrt, rsqrt",H+":640-740")],observe=["ulp distance"])
p("C25","Scalar cxcm functions agree with <cmath>, at compile time and at run time",
 "The scalar functions of namespace cxcm, which the library is built on and users may call, return what the like-named <cmath> functions define for every argument, special values included, both in constant expressions and at run time: isnan, isinf, isfinite, isnormal, fpclassify, signbit, copysign, abs and fabs, trunc, floor, ceil, round, round_even (halves to even), fract (x - floor(x)), fmod (exact), sqrt (correctly rounded), rsqrt (within rounding error); integral arguments are handled as the equivalent double, and abs of integers keeps the type. The relaxed:: forms give the same values on ordinary finite arguments (fmod: on small whole numbers).",
 ["inputs","configurations"],"all arguments, finite or not, of float and double, and of the integral types",
 "Separate compile-time and run-time code paths; tests check a few dozen hand-picked values through the run-time path.",
 [("namespace cxcm",H+":150-1500")],observe=["bits of the result at compile time and at run time"])
p("C26","Storage wrappers, view wrappers and stand-alone swizzles follow the memory model",
 "The building blocks the vectors are made of are public and behave as the vectors do. A storage_wrapper owns its elements: set, [], data, iterators and get write exactly the named element, copies are independent, swap (member or free) exchanges contents, == and != compare all elements. A view_wrapper shows and writes the cells it was pointed at, reset and copies only rebind it, swapping with itself changes nothing, with a disjoint window exchanges contents, and with a partially overlapping window throws std::range_error and changes nothing. A stand-alone indexed_vector owns its elements and an indexed_view points at some; both read, write, assign, compound-assign, iterate, compare and convert as the sequence of components their indexes name, in that order, with the right-hand side read before anything is written. The same holds when any vector is used through its vector_base.",
 ["programs","histories"],"all sequences of operations, element types, windows and index choices",
 "Tests touch these classes once or twice with one type; order, aliasing and overlap need histories.",
 [("storage_wrapper, view_wrapper",H+":1820-2110"),("indexed_vector, indexed_view",H+":2900-3210"),("vector_base",H+":2120-2350")],observe=["all memory after every operation","bindings","exceptions"])
p("C27","Index sequences, concepts, promotion and type descriptions are as documented",
 "make_index_range and make_closed_index_range give the half-open and closed sequence from start to end, descending when end is smaller; make_array_sequence, make_sequence_array and make_reverse_sequence convert without loss and in order, and refuse negative elements; indexable and writable_swizzle hold exactly when the indexes are in range and of the given number, and pairwise distinct; the scalar, size and storage concepts, promotes_to and implicitly_convertible_to hold exactly for the documented types and pairs; to_underlying keeps the value and type; every type name (ivec3, cdview2, dmat3x4, ...) denotes the element type, constness and dimensions it says; deduction from scalars takes the first one's type and their number, from a vector its type and length; and every vector, view, wrapper and swizzle type describes itself truthfully (length, size, tuple size and element, offsets, sequence, writability, constness, iterator category, layout).",
 ["programs","inputs"],"all element types and pairs of arithmetic types, all index choices, all type names",
 "Tests check single instances; a wrong entry in a table of a hundred names or pairs goes unnoticed.",
 [("concepts, index sequences, promotion",H+":1590-1812"),("type names",H+":9250-9420"),("tuple protocol and deduction guides",H+":4726-4733, 9530-9630")],observe=["types","constant expressions"])
X="examples/"
p("C28","The extensions order, hash, compare, slice, print and exchange as they say",
 "With the headers in examples/: <=> (and <, <=, >, >=) orders vectors by the first differing component and matrices by the first differing column, whatever the kinds and element types, and is unordered when a NaN is involved; weighted_compare follows the signs of the component comparisons times the weights; equal sequences hash alike in every kind of vector. within_tolerance, within_box and within_distance hold exactly up to and including the tolerance; slice is a window on exactly the asked elements or throws std::out_of_range; copies between vectors, matrices, spans and valarrays move the common elements in order and nothing else; streams and std::format write [a, b] and [[a, b], [c, d]]. The closest points, distances, circle centers, angles, Bezier curves and STL conversions of the other examples are the geometric ones up to rounding.",
 ["inputs"],"all lengths, element types and kinds of vector, matrix shapes, weights, tolerances, offsets, sequence lengths and files of facets",
 "The extensions have almost no tests, and each is a template over all kinds and types of vector.",
 [("operator <=> and weighted_compare",X+"compare.hxx"),("std::hash",X+"hash.hxx"),("within_*",X+"tolerance.hxx"),("slice",X+"slice.hxx"),("span and valarray",X+"span_convert.hxx"),("text",X+"format_output.hxx"),("geometry",X+"basic.hxx"),("curves",X+"bezier.hxx"),("STL",X+"stl.cxx")],
 observe=["return values","contents after","text written"],files=["examples/compare.hxx","examples/hash.hxx","examples/tolerance.hxx","examples/slice.hxx","examples/span_convert.hxx","examples/valarray_convert.hxx","examples/ostream_output.hxx","examples/format_output.hxx","examples/angle.hxx","examples/basic.hxx","examples/bezier.hxx","examples/stl.cxx",H])
p("C29","Calls outside their contract stop at an assertion, all others never do",
 "With assertions on (the default), a call outside its documented contract never goes on with a wrong element or an undefined value: an index of any arithmetic type that is negative or not below the size (vector, view, swizzle, wrapper, matrix column or row, swizzle()), any element access, write, assignment, swap, iteration or conversion through a view of nothing (or of its swizzles), moving or dereferencing a swizzle's iterator outside its range, dereferencing a default one, subtracting or comparing iterators of different objects, % by zero, clamp with max below min, smoothstep with edges out of order and pow of a negative base or of zero with an exponent not above zero all end in the assertion, and are no constant expressions. A call within its contract, boundaries included, never does: it returns with the element or position it names, and the constexpr ones are constant expressions. Making, copying, resetting or asking the size of a view of nothing is within contract."
 .replace("  "," "),
 ["inputs","histories","configurations"],"all kinds and lengths of vector and matrix, all index types and values, all iterator positions and distances, all operands of the functions with undefined arguments",
 "Tests turn assertions on but never make a call that would trip one, so a lost, loosened or tightened condition goes unnoticed.",
 [("dsga_constexpr_assert",H+":39-61"),("index checks",H+":1856-1870, 1985-2000, 2975-2990, 3180-3200, 8575-8600"),("null checks",H+":1985-2080, 3090-3240"),("iterator checks",H+":2395-2500, 2655-2765"),("function checks",H+":6553, 7583-7596, 7935-8053, 8485-8498")],
 observe=["how the call ends","value returned","whether the compiler accepts it as a constant"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: 
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
