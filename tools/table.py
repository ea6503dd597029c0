PROPS=[]
NOT_APPLICABLE={}
def P(id,title,statement,forall,why,files,mech,note,**kw):
    PROPS.append(dict(id=id,title=title,statement=statement,forall=forall,why=why,files=files,mech=mech,note=note,**kw))

STD='Every obligation of every listed function is discharged for all inputs; machine integers are exact (wrap-around). Trusted: the VC generator gostv, go/ssa, the SMT solvers.'

P('P01','Wrapping integer arithmetic is exact modulo the width of the type',
  'For every fixed-width integer type up to 64 bits, wrapping addition, subtraction, multiplication and division return the mathematical result reduced modulo 2^width into the range of the type. Only division by zero panics.',
  'every pair of operands of each of the ten primitive integer types',
  'the 2^128 operand pairs per 64-bit type cannot be sampled; ops_test.go tries a handful of values per method',
  ['ops.go'],[('WrappingAdd/Sub/Mul/Div methods','ops.go'),],STD)
P('P02','Checked integer arithmetic returns None exactly when the result does not fit',
  'Checked addition, subtraction, multiplication, division and remainder of every integer type up to 64 bits return the exact mathematical result when it is representable, and None otherwise. Division and remainder by zero return None, and so does the one signed quotient that overflows.',
  'every pair of operands of each of the ten primitive integer types',
  'overflow conditions sit at isolated boundaries of a 2^128 input space; the tests sample a few values',
  ['ops.go','option.go'],[('Checked* methods','ops.go'),('overflow predicates','ops.go')],STD)
P('P03','Saturating integer arithmetic clamps to the nearest bound',
  'Saturating addition, subtraction, multiplication and division of every integer type up to 64 bits return the mathematical result clamped to the minimum and maximum of the type, for every divisor other than zero.',
  'every pair of operands (non-zero divisors) of each of the ten primitive integer types',
  'sign and boundary combinations over the whole range cannot be sampled',
  ['ops.go'],[('Saturating* methods','ops.go'),('overflow predicates','ops.go')],STD)
P('P04','Plain integer operators, assignment forms, abs, sign, shifts and powers',
  'For every integer type up to 64 bits the plain operators and their assignment forms compute the mathematical result reduced to the width of the type, and division or remainder by zero panics. Absolute value, absolute difference, negation, sign tests, shifts by a count and integer powers agree with their mathematical definition reduced to the width of the result type.',
  'every operand, shift count and exponent of each of the ten primitive integer types',
  'the operators range over the whole of each type, powers over all 2^32 exponents; tests sample a few',
  ['ops.go','bitwise.go'],[('operators, assignment operators, Abs, AbsDiff, Neg, IsPositive, IsNegative, Pow','ops.go'),('Shl, Shr','bitwise.go')],STD)
CL='Closures passed in are assumed pure, deterministic and non-nil; closures without parameters may return a different value on every call and their calls are counted. '
P('P08','Option: case analysis laws and lazy evaluation',
  'An Option is either Some value or None. Every combinator (unwrapping, mapping, filtering, and/or/xor, insertion, take, replace, clone, equality) returns what case analysis on the receiver and the arguments prescribes, and unwrapping None panics. A closure is called exactly when its case applies, at most once, and operations that do not announce a change leave the receiver alone.',
  'every element type, every Option value and argument Option, every closure',
  'the laws are generic in the element type and in the closures given; option.go has no tests',
  ['option.go'],[('Some, None and the Option methods','option.go')],CL+STD)
P('P09','Result: case analysis laws',
  'A Result is either Ok value or Err error. Every combinator returns what case analysis on the receiver prescribes, errors pass through unchanged where the operation is defined on Ok and values pass through unchanged where it is defined on Err, and unwrapping the wrong case panics. A closure is called exactly when its case applies.',
  'every value type, every Result, every closure and error',
  'the laws are generic in the value type and in the closures given; result.go has no tests',
  ['result.go','option.go'],[('Ok, Err and the Result methods','result.go')],'Errors are non-nil. '+CL+STD)
P('P24','If-else expressions evaluate the first true branch and no other',
  'The value of an If/ElseIf/Else chain is the value of the first branch whose condition is true, or of the Else branch when none is. The expression of that branch runs exactly once and no other expression runs.',
  'every chain of conditions and every branch expression',
  'a chain has any number of branches; syntax.go has no tests',
  ['syntax.go'],[('If, ElseIf, Else','syntax.go')],CL+STD)
LAW='Trait implementations (Cmp, Eq, Clone) of element types are assumed to be pure and lawful (a total order, an equivalence). '
P('P07','Comparison and equality agree with the mathematical order',
  'For every ordered type of the library (integers of all widths including 128 bits, floats, strings, booleans, pairs), Cmp returns less, equal or greater exactly as the values compare mathematically (floats that are not NaN; strings by bytes; pairs lexicographically), Eq is true exactly for equal values, and swapping the arguments negates Cmp and keeps Eq.',
  'every pair of values of each type; for pairs every pair of ordered component types',
  'every sorted container relies on these for all pairs of values; cmp.go has no tests',
  ['cmp.go','pair.go'],[('Cmp and Eq methods','cmp.go'),('Pair.Cmp, Pair.Eq','pair.go')],LAW+STD)
P('P10','Vec behaves as a finite sequence under every operation',
  'A Vec is a sequence of elements. Push, Pop, Insert, Append, Get, Set, Swap, Reverse, Retain, Dedup, DedupByKey, Fill, FillWith, Contains, Clear and Reserve each have exactly the documented effect on that sequence: no element is lost, duplicated, reordered or invented, reads return the element at the position asked for, and only out-of-range positions panic.',
  'every element type, every sequence of any length and capacity, every argument and closure',
  'lengths, capacities and closures are unbounded; vec.go has no tests',
  ['vec.go'],[('Vec methods','vec.go')],CL+'Lengths and capacities are at most 2^48. Element equality of Dedup and Contains is an uninterpreted equivalence standing for reflect.DeepEqual. '+STD)
P('P11','VecDeque behaves as a double-ended sequence wherever its ring starts',
  'A VecDeque is a sequence of elements, whatever the position of the head in its ring buffer. Pushing and popping at both ends, growing, reserving, Append, Retain, Dedup, Swap, Get, Set, Fill, FillWith, Contains, AsSlice and Clear each have exactly the documented effect on that sequence: no element is lost, duplicated, reordered or invented when the ring wraps around or is reallocated.',
  'every element type, every content, capacity and head position, every argument and closure',
  'the wrap-around and the growth of the ring depend on the history of pushes and pops; vec_deque.go has no tests',
  ['vec_deque.go'],[('VecDeque methods','vec_deque.go'),('ring growth','vec_deque.go: _Grow, _HandleCapacityIncrease')],CL+'Lengths and capacities are at most 2^48. '+STD)
P('P18','Sorting orders a permutation and binary search finds what is there',
  'Sorting a sequence container leaves a permutation of its elements in ascending order of the comparison used, and the stable sorts keep equal elements in their original order. Binary search on an ordered sequence returns the position of an equal element if there is one and None otherwise.',
  'every element type, every sequence, every lawful order or comparison function',
  'orders, lengths and probe positions are unbounded; the searches have no tests',
  ['vec.go','vec_deque.go'],[('Sort*, BinarySearch*','vec.go'),('Sort*, BinarySearch*','vec_deque.go')],LAW+'sort.Slice and sort.SliceStable are trusted to sort correctly when the comparator handed to them is a strict weak order on the elements, which is proved. '+STD)
P('P22','Clones are equal and independent, container equality is elementwise',
  'Cloning a value or container yields one with equal (cloned) contents whose later changes do not show in the original, nor the other way round. Equality of containers is true exactly when they hold equal elements.',
  'every element type and every content of the container',
  'aliasing between a container and its clone only shows after particular later mutations',
  ['vec.go','vec_deque.go','linked_list.go','hash_map.go','hash_set.go'],[('Clone and Eq methods','vec.go, vec_deque.go, linked_list.go, hash_map.go, hash_set.go')],LAW+'Cloning a map key is assumed to give an equal key. '+STD)
P('P16','BinaryHeap always yields its greatest element and loses nothing',
  'A BinaryHeap is a bag of elements. Pop removes and returns a greatest element of the bag (None when empty); Push, Append and Clear change the bag by exactly the elements named, and Append empties the other heap; length and slices agree with the bag; IntoSortedVec returns all the elements in ascending order.',
  'every ordered element type, every history of pushes and pops, every size',
  'sift paths depend on the whole history and shape of the heap; binary_heap.go has no tests',
  ['binary_heap.go','vec.go'],[('BinaryHeap methods, _SiftUp, _SiftDownToBottom','binary_heap.go')],LAW+'Two heaps passed to Append have distinct storage. Lengths are at most 2^48. '+STD)
P('P13','HashMap and HashSet are exact finite maps and finite sets',
  'A HashMap is a finite map and a HashSet a finite set. Insert, Remove, Get, Contains, Len, IsEmpty and Clear have exactly their documented effect and result; the key and value slices and vectors list every entry exactly once; subset, superset and disjointness tests and union, intersection, difference and symmetric difference agree with set theory and leave their operands unchanged.',
  'every key and value type, every content, every history of insertions and removals',
  'contents, overlap of operands and iteration order of Go maps are unbounded; the tests use one small example per operation',
  ['hash_map.go','hash_set.go'],[('HashMap methods','hash_map.go'),('HashSet methods and set operations','hash_set.go')],'Go map keys are assumed to be compared by an equivalence (no NaN keys). Cardinality axioms of finite sets are trusted. '+STD)
P('P12','LinkedList behaves as a double-ended sequence',
  'A LinkedList is a sequence of elements. Pushing and popping at either end, Append, Front, Back, Len, IsEmpty and Clear each have exactly the documented effect on that sequence: no element is lost, duplicated, reordered or invented, the forward and backward links always describe the same sequence, popping an empty list gives None, and Append empties the other list.',
  'every element type, every list of any length and every history of operations',
  'links and lengths depend on the whole history; linked_list.go has no tests',
  ['linked_list.go'],[('LinkedList methods','linked_list.go')],'Lengths are at most 2^48; the two lists of Append share no nodes. '+STD)
P('P17','Iterators yield in order, adapters act on exactly the remaining elements',
  'Every iterator yields the elements of its source in order, each exactly once, and then None forever. Map, Filter, Fold, Rev, CollectToVec and CollectToLinkedList act on exactly the elements not yet yielded: mapping all of them in order, keeping those that satisfy the predicate, combining them from the left, reversing their order, or collecting them all.',
  'every element type, every source and every position in it, every closure',
  'sources, positions and closures are unbounded; the tests use fresh iterators over a few elements',
  ['vec.go','vec_deque.go','linked_list.go','hash_map.go','hash_set.go','btree_map.go','btree_set.go','iter.go'],[('VecIter','vec.go'),('VecDequeIter','vec_deque.go'),('LinkedListIter','linked_list.go'),('HashMapIter, HashMapKeys, HashMapValues','hash_map.go'),('HashSetIter','hash_set.go'),('BTreeMapIter, BTreeMapKeys, BTreeMapValues','btree_map.go'),('BTreeSetIter','btree_set.go')],CL+'Lengths are at most 2^48. '+STD)
P('P05','128-bit arithmetic is exact modulo 2^128',
  'For I128 and U128 addition, subtraction, multiplication and their assignment forms, negation, absolute value and sign tests, shifts by any non-negative count below 2^64, and conversion from 64-bit integers return the mathematical result reduced modulo 2^128 into the range of the type.',
  'every pair of 128-bit operands and every shift count',
  'carries and borrows between the halves sit at isolated places of a 2^256 input space; the tests sample a few values',
  ['ops.go','bitwise.go','primitive.go'],[('I128 and U128 Add, Sub, Mul, *Assign, Neg, Abs, IsPositive, IsNegative','ops.go'),('I128 and U128 Shl, Shr','bitwise.go'),('FromU64, FromI64','primitive.go')],STD)
P('P14','BTreeMap is an exact ordered map',
  'A BTreeMap is a finite map ordered by key. Insert, Remove, Get, ContainsKey, Len, IsEmpty and Clear have exactly their documented effect and result after every history of operations; Keys, Values and IntoIter list every entry exactly once in ascending order of keys; an existing key keeps its identity when its value is replaced.',
  'every ordered key type, every value type, every history of insertions and removals',
  'node splits, borrows and merges depend on long histories; btree_map.go has no tests',
  ['btree_map.go'],[('BTreeMap methods','btree_map.go'),('node operations','btree_map.go: splitChild, _Merge, _Fill, _BorrowFromPrev, _BorrowFromNext, _Remove*')],'Bounded: histories of up to 900 operations over up to 600 keys, compared with a Go map after every step. '+LAW,level='exploration',
  technique='bounded stand-in: model-based histories against the real code (node-level contracts in progress)')
P('P15','BTreeSet is an exact ordered set',
  'A BTreeSet is a finite ordered set. Insert, Remove, Contains, Len, IsEmpty and Clear have exactly their documented effect and result; iteration yields every element once in ascending order; subset, superset and disjointness tests and union, intersection and symmetric difference agree with set theory and leave their operands unchanged.',
  'every ordered element type, every content of the operands',
  'contents and overlap of operands are unbounded; the tests use one small example per operation',
  ['btree_set.go','btree_map.go'],[('BTreeSet methods and set operations','btree_set.go')],'Bounded: sets of up to 90 elements against Go maps. '+LAW,level='exploration',
  technique='bounded stand-in: model-based comparison on the real code (contracts in progress)')
P('P19','Durations are exact and canonical',
  'A Duration built from seconds and nanoseconds, or from whole seconds, milliseconds, microseconds or nanoseconds, stands for exactly that span of time, carries excess nanoseconds into the seconds so that the fraction stays below one second, and panics exactly when the whole seconds exceed 64 bits. The accessors return its whole seconds, its fraction, and its totals in milli-, micro- and nanoseconds exactly, rounded down.',
  'every count of seconds and nanoseconds that fits the argument types',
  'carries and truncation depend on values anywhere in a 2^96 input space; time.go has no tests',
  ['time.go','ops.go'],[('DurationNew, DurationFrom*, As*, Subsec*','time.go')],STD)
P('P06','128-bit division, remainder and decimal text are exact',
  'For I128 and U128, division returns the quotient rounded toward zero reduced modulo 2^128, and remainder the remainder of the magnitudes (for I128 negative when exactly one operand is negative, as the existing tests fix it); both and their assignment forms panic exactly for a zero divisor. ToString returns the decimal text of the value, with a minus sign for negative ones.',
  'every pair of 128-bit operands',
  'quotients and digits depend on all bits of a 2^256 input space; the tests sample a few values',
  ['ops.go','to_string.go'],[('I128 and U128 Div, Rem, DivAssign, RemAssign','ops.go'),('I128 and U128 ToString','to_string.go')],'Assumed contracts on math/big (NewInt, SetString, String, Add, Mul, Neg, Div, Rem, FillBytes), strconv and encoding/binary (contracts/14_decimal.spec). '+STD)

ASM='The standard-library functions called (strings, strconv, unicode/utf8, unicode/utf16) are assumed to do what their documentation says; their assumed contracts are listed in the evidence. '
P('P20','Strings: bytes, characters, searching and number parsing are exact',
  'A String is a sequence of bytes, valid UTF-8 or not: length, conversion to and from bytes, listing of characters, search (Contains, and Find for the byte index of the first occurrence), and appending or removing the last character (None when empty, everything before it left alone) agree with those bytes. Decoding UTF-16 uses every unit and is an error exactly when a surrogate is unpaired; ParseI64 and ParseU64 accept exactly the decimal texts (with an optional sign, for U64 only a plus) whose value fits and return that value. Split, Trim, Replace (all occurrences), ToLowercase, ToUppercase, ParseF64 and Repeat give what the standard library gives.',
  'every string, valid UTF-8 or not, every pattern, every sequence of UTF-16 units',
  'strings and patterns are unbounded; string.go has no tests',
  ['string.go'],[('StringFromUTF8, StringFromUTF16 and the String methods','string.go')],ASM+STD)
P('P21','Format, display texts and assertions',
  'Format replaces each {} by the display text of the next parameter and each {{ and }} by one brace, and copies everything else, for every well-formed format with one displayable parameter for each {}. Integers up to 64 bits are shown in decimal, truth values as true or false, Strings as they are, Options as Some(x) or None, Results as Ok(x), and Vec, VecDeque and LinkedList as their name followed by the elements in order, separated by a comma and a space, in square brackets. Assert, AssertEq and AssertNe panic exactly when the assertion does not hold, whatever message is given; Panic, Unimplemented, Unreachable and Todo always panic.',
  'every well-formed format and parameter list, every value, every condition and message',
  'formats, parameters and contents are unbounded; panic.go, io.go and fmt.go have no tests of their own',
  ['io.go','panic.go','fmt.go','to_string.go','vec.go','vec_deque.go','linked_list.go','option.go','result.go'],[('Format','io.go'),('Assert, AssertEq, AssertNe, Panic, Unimplemented, Unreachable, Todo','panic.go'),('ToString methods','to_string.go'),('Display methods','fmt.go')],ASM+'The error text of a Result is not covered. Whether a formatted assertion message is itself well formed is not required: the call panics either way. '+STD)
P('P23','File operations do to the file system what they say',
  'Reading returns exactly the bytes of the file, writing replaces them, copying leaves an independent copy, renaming and removing affect exactly the named entry, and every failure is reported as Err.',
  'every path, file content and file-system state',
  'fs.go has no tests; its effects depend on file sizes, existing entries and faults',
  ['fs.go'],[('Read*, Write*, Copy, Rename, Remove*, CreateDir*, ReadDir','fs.go')],STD)
P('P25','Locks, threads and futures lose no update and no result',
  'A Mutex or RWMutex guards its value against concurrent access, a JoinHandle delivers the result of its thread exactly once after the thread ended, and a Future delivers its value to its waiter.',
  'every interleaving of the goroutines involved',
  'outcomes depend on the schedule, which a test cannot enumerate',
  ['sync.go','thread.go','future.go'],[('Mutex, RWLock','sync.go'),('Spawn, JoinHandle','thread.go'),('Future','future.go')],STD,over=['schedules'])
P('P26','Floating-point operations agree with IEEE 754 and package math',
  'Addition, subtraction, multiplication and division of 32- and 64-bit floats (and their assignment forms), rounding down, up, to nearest (half away from zero) and toward zero, and absolute value return the IEEE 754 result in the width of the type, for every operand including zeros, infinities and NaN. The fractional part of a finite value is the value minus its truncation. Square root, exponentials, logarithms and powers are those of the math library on the widened operand, rounded to the width of the type.',
  'every pair of 32- and 64-bit floating-point values',
  'the functions range over 2^128 operand pairs with special values; float_test.go tries a few ordinary ones',
  ['float.go','ops.go'],[('F32 and F64 methods','float.go'),('Add, Sub, Mul, Div and assignment forms of F32 and F64','ops.go')],'Package math is assumed: its rounding functions, Abs, Sqrt and Modf by IEEE 754 contracts, its exponentials, logarithms and Pow as unspecified pure functions. '+STD)
NOT_APPLICABLE['P23']='fs.go consists of calls into the operating system (os.Open, os.Link, file.Read and so on): every effect lies in the kernel. A contract could only restate an assumed contract on each system call, so nothing about files would be proved; no function with reasoning of its own remains.'
NOT_APPLICABLE['P25']='The verification-condition generator covers sequential code: goroutines, channels, select and sync primitives are outside it, and no deductive verifier for concurrent Go is installed. A sequential contract could not speak about interleavings.'
