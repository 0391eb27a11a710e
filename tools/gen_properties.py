#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json
H='inc/ptl/'
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':[H+f for f in files],'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    return {'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a}
ALL=['array.hpp','array_ref.hpp','bitset.hpp','function_ref.hpp','optional.hpp','optional_ref.hpp','string.hpp','string_ref.hpp','tuple.hpp','variant.hpp','variant_ref.hpp','vector.hpp']
props=[
P('C01','Binary layout of every type is frozen',
 'Size, alignment and the order, offset and width of the stored fields of every type never change: an array is its elements, views are two pointers, a vector is release function, data pointer, capacity and size (four words), a string is release function plus a three-word union of inline buffer and pointer/capacity/size, optional and variant are their unpadded payload followed by one unsigned byte, a bitset is exactly the rounded-up number of bytes, a reference to one of several types is pointer plus index, a function reference is object pointer plus entry point. This holds for every element type and size, whatever compiler options are in effect.',
 ['programs','configurations'],'every instantiation of every public template, every element type and size the library admits',
 'Tests never look at offsets and only two headers assert a size; a reordered field, a widened flag or padding changes no single-binary behaviour, only the ability to talk to already compiled binaries.',
 ALL,[('packed storage','optional.hpp/variant.hpp/tuple.hpp #pragma pack'),('fixed member order','vector.hpp/string.hpp storage_t'),('static size asserts','string.hpp, string_ref.hpp')]),
P('C02','Stored values are encoded the same way by every operation',
 'Every operation reads and writes the representation with one fixed meaning: the trailing byte of an optional is 0 or 1 for empty or engaged, the trailing byte of a variant is the zero-based position of the held type in the list, bit i of a bitset is bit i%8 of byte i/8, an inline string stores its length in the first payload byte and its characters right behind it, a string or vector whose release function is null owns no buffer, and a reference to one of several types stores the position of the referenced type. Objects produced by one binary can therefore be read and modified by another.',
 ['inputs','histories','programs'],'all operations on all reachable object states, also states produced by another binary',
 'A consistently changed encoding (e.g. reversed bit order or one-based index) passes every behavioural test since writer and reader agree within one build.',
 ['optional.hpp','variant.hpp','bitset.hpp','string.hpp','vector.hpp','variant_ref.hpp'],[('discriminators','optional/variant/variant_ref constructors'),('bit addressing','bitset.hpp operator[], set'),('inline/heap discriminator','string.hpp storage_t')]),
P('C03','Value and view types stay trivially passable across binaries',
 'Views (ranges, string references, optional, variant and function references) are trivially destructible two-word-or-smaller objects that own nothing and, except for variant references, trivially copyable, and every owning type is a standard-layout class without virtual functions; arrays, bitsets of trivial content are trivially copyable. Copying, destroying or default-constructing a view never touches the referenced object and never allocates.',
 ['programs','inputs'],'every instantiation and every copy, assignment or destruction of a view',
 'Triviality changes the calling convention between binaries but is invisible to tests compiled into one binary.',
 ['array_ref.hpp','string_ref.hpp','optional_ref.hpp','variant_ref.hpp','function_ref.hpp','array.hpp','bitset.hpp','vector.hpp','string.hpp','optional.hpp','variant.hpp'],[('defaulted special members','view classes'),('raw pointer members','all view classes')]),
P('C04','Containers admit exactly the element types they can handle safely',
 'Instantiating an owning container, optional or variant with an element type whose move, destruction or swap may throw, which is not copyable (or, where required, default-constructible), or which is not standard-layout is rejected at compile time, as are variants and variant references with duplicate types, variants with more types than the one-byte index tells apart, and out-of-range element access by constant index; element types that meet the requirements are accepted.',
 ['programs'],'every element type',
 'A test suite that must compile cannot contain the programs that have to be rejected; dropping a requirement goes unnoticed until a throwing move corrupts a container.',
 ['vector.hpp','optional.hpp','variant.hpp','array.hpp','tuple.hpp','variant_ref.hpp','bitset.hpp'],[('static_assert lists','class heads of vector, optional, variant, array, tuple, variant_ref')]),
P('C05','A buffer is released only by the binary that allocated it',
 'Every dynamically allocated buffer of a vector or string is released exactly once, through the release function recorded when that buffer was allocated and only through it; the function travels with the buffer on move and swap, a new buffer always gets a function matching its own allocation, and an object without a buffer has none.',
 ['histories','inputs','programs'],'all operation histories including moves and swaps between objects whose buffers come from different binaries, and all exception exits',
 'Tests run in one binary, where releasing with the local function instead of the recorded one happens to work.',
 ['vector.hpp','string.hpp'],[('recorded release function','vector.hpp storage_t::dealloc, string.hpp storage_t::dealloc'),('move/swap transfer','storage_t move operations and swap')]),
P('C06','Vector creates and destroys each element exactly once',
 'At every moment exactly the elements at positions below size() are alive: no operation constructs over a living element, assigns to or destroys raw memory, destroys twice, or leaves an element alive when its memory is released or abandoned - on normal return and when any element constructor, assignment or iterator throws.',
 ['inputs','histories','fault_sequences'],'all sizes, capacities, positions and every exception point of every operation',
 'Tests use mostly trivial element types without life-cycle accounting and never throw from element operations.',
 ['vector.hpp'],[('construct-then-rotate insertion','vector.hpp insert_impl, assign_impl'),('uninitialized_* / destroy pairing','vector.hpp resize, reserve, shrink, erase, clear')],[('siz','number of living elements','vector.hpp storage_t')]),
P('C07','Vector operations produce exactly the specified sequence',
 'After every vector operation the container holds exactly the sequence the standard-library counterpart would hold - same elements, order and count - and returned iterators or references denote the position the counterpart specifies. This covers construction, assignment, insertion, emplacement, removal, resizing, reserving, shrinking and element access.',
 ['inputs','histories'],'all initial sequences, positions, counts and source ranges, with and without reallocation',
 'Tests sample a few short sequences; off-by-one slips that only show for certain position/size/capacity relations escape them.',
 ['vector.hpp'],[('assign/insert/resize helpers','vector.hpp assign_impl, insert_impl, resize_impl'),('erase','vector.hpp erase')]),
P('C08','Vector never reads or writes outside its allocation',
 'The size of a vector never exceeds its capacity, the capacity never exceeds what was actually allocated, and no operation whose preconditions hold accesses memory outside the live elements or the allocated buffer, or memory already released.',
 ['inputs','histories'],'all sizes, capacities, positions and counts',
 'An overrun by one element within allocator slack is silent, and the test run is not instrumented.',
 ['vector.hpp'],[('capacity tests','vector.hpp assign_impl, insert_impl, reserve, resize_impl'),('allocation size','vector.hpp storage_t(capacity)')]),
P('C09','String operations produce exactly the specified characters',
 'After every string operation the string holds exactly the characters its standard-library counterpart would hold, embedded zeros included, and returned iterators or references denote the specified position. This covers construction, assignment, append, insert, replace, erase, resize, concatenation, substrings and literals, for inline and heap-stored strings and when crossing between the two.',
 ['inputs','histories'],'all strings, lengths around and beyond the inline limit, positions, counts and source ranges',
 'Tests sample a few literals; slips that need a certain relation of length, position and capacity escape.',
 ['string.hpp'],[('no-aliasing helpers','string.hpp append_no_aliasing, insert_no_aliasing, replace_no_aliasing'),('range overloads','string.hpp append, assign, insert, replace'),('concat/substr','string.hpp concat, substr')]),
P('C10','String is always terminated and stays inside its buffer',
 'After every operation, including one that exits by exception, the character behind the last one is zero, size never exceeds capacity, capacity plus terminator fits into the inline area or the allocation, and no access falls outside the current buffer or touches a released or inactive one.',
 ['inputs','histories','fault_sequences'],'all lengths, positions and counts, inline and heap, every exception point',
 'A missing terminator is only visible to consumers of c_str() after particular histories; overruns within allocator slack are silent.',
 ['string.hpp'],[('set_size','string.hpp storage_t::set_size'),('inline limit','string.hpp storage_t(required)'),('copy/move/swap of both representations','string.hpp storage_t')]),
P('C11','Arguments may refer into the object being modified',
 'Assigning, inserting, appending or replacing with a value or range that lies inside the modified vector or string yields the same result as using an independent copy of the arguments taken before the call, whether or not the buffer is reallocated; so do assigning the held value of a variant or optional to it and filling an array with one of its elements.',
 ['inputs','histories'],'all positions of the argument inside the object, all sizes and capacities',
 'Tests try a few aliasing calls with fixed contents; the order of copying and overwriting matters only for certain offsets and capacity relations.',
 ['vector.hpp','string.hpp','optional.hpp','variant.hpp','array.hpp'],[('copy behind the end, then rotate','vector.hpp insert_impl/assign_impl, string.hpp append/assign/insert/replace'),('fill the new buffer first','vector.hpp insert_impl, resize_impl')]),
P('C12','A failing operation leaves objects unchanged and leaks nothing',
 'If allocation, an element constructor or reading the source range throws, the exception propagates, vectors, strings, variants and optionals being modified keep their previous value (the object contained in an optional as far as its own assignment does), constructors leave nothing behind, and every intermediate buffer and element is released.',
 ['fault_sequences','inputs'],'every point at which allocation, an element operation or an iterator can throw, in every operation',
 'No test injects failures.',
 ['vector.hpp','string.hpp','optional.hpp','variant.hpp'],[('build aside, then commit','vector.hpp *_impl, reserve; variant.hpp assignment'),('flag set after construction','optional.hpp assignment, emplace')]),
P('C13','Optional is engaged exactly while it holds a living value',
 'An optional reports a value if and only if its contained object is alive, through every construction, assignment from value, empty marker or other optional, emplacement, swap, reset and destruction; each contained object is constructed and destroyed exactly once, and the held value is the one the standard-library counterpart would hold.',
 ['histories','inputs','fault_sequences'],'all combinations of engaged and empty operands and all exception exits',
 'Tests do not count constructions and destructions and cover only some engaged/empty combinations.',
 ['optional.hpp'],[('initialized flag handling','optional.hpp constructors, assignment, emplace, reset, swap')],[('initialized','value alive','optional.hpp')]),
P('C14','Variant always holds exactly one value of the recorded type',
 'A variant is never empty: at every observable moment exactly one alternative is alive and it is the one the variant reports, through construction, copy, move, assignment, emplacement, swap and destruction and when an alternative\'s constructor throws; each alternative object is constructed and destroyed exactly once with the value the operation specifies.',
 ['histories','inputs','fault_sequences'],'all pairs of held alternatives and all exception exits',
 'Tests cover a few alternative pairs with trivial types and never throw from constructors.',
 ['variant.hpp'],[('construct aside, destroy, move in','variant.hpp assignment, emplace'),('per-alternative dispatch tables','variant.hpp internal_variant')],[('type','index of live alternative','variant.hpp')]),
P('C15','Variant access and visitation reach exactly the held alternative',
 'Typed access returns the held object itself if and only if the requested type is the held one, and otherwise a null pointer or the bad-access exception; visitation calls the visitor exactly once, with the held object, with the constness and value category of the variant expression, and returns its result unchanged.',
 ['inputs','programs'],'all alternatives, all access forms (const, mutable, rvalue) and any number of visitors',
 'Tests exercise few alternatives and do not distinguish value categories; a dispatch table or cast slip for one alternative goes unnoticed.',
 ['variant.hpp'],[('dispatch tables','variant.hpp internal_variant::visit'),('get_if/get','variant.hpp')]),
P('C16','Optional access returns the contained object or the stated fallback',
 'Dereferencing and checked access yield the contained object itself with the constness and value category of the expression, checked access throws the bad-access exception exactly when empty, and value-or-default returns a copy (or, for rvalues, a move) of the contained value when engaged and the converted default otherwise; this holds alike for references to optionals.',
 ['inputs','programs'],'engaged and empty states, all reference qualifications',
 'Tests check values, not identity or category, for a few combinations.',
 ['optional.hpp','optional_ref.hpp'],[('access functions','optional.hpp value, operator*, value_or; optional_ref.hpp')]),
P('C17','Self-assignment is harmless and moved-from objects stay usable',
 'Assigning an object to itself (by copy or move) or swapping it with itself leaves its value unchanged, and after being moved from a vector or string is a valid object that can be destroyed, assigned and queried, owns no buffer of its new owner, and shares no state with it.',
 ['histories','inputs'],'all object states, inline and heap storage, equal and different alternatives',
 'Tests do not self-assign and rarely touch moved-from objects.',
 ['vector.hpp','string.hpp','optional.hpp','variant.hpp'],[('identity tests','assignment operators and swap'),('reset of source on move','storage_t move operations')]),
P('C18','Swap exchanges complete values and nothing else',
 'Swapping two objects of any type exchanges their entire observable values (contents, size, capacity, held type, buffer ownership) for every combination of states, never throws, never allocates for vector and string, and leaves other objects untouched; swapping bit proxies exchanges the designated bits.',
 ['inputs','histories'],'all combinations of states of both operands, including inline with heap and empty with engaged',
 'Tests swap one or two combinations.',
 ['vector.hpp','string.hpp','optional.hpp','variant.hpp','array.hpp','bitset.hpp','tuple.hpp'],[('swap members','all owning types')]),
P('C19','Operations promised not to throw never terminate the program',
 'Every operation declared non-throwing completes without letting an exception escape internally, for all element types the library admits, and the operations users rely on to be non-throwing (move, swap, destruction, clear, queries, views) are declared so; shrinking tolerates allocation failure.',
 ['fault_sequences','inputs','programs'],'every non-throwing operation, every state, allocation failure anywhere',
 'Termination only happens on failing allocation or throwing element operations, which tests never provoke.',
 ALL,[('noexcept specifications','all headers'),('static requirements on element types','class heads')]),
P('C20','Checked access throws exactly for invalid requests',
 'Bounds-checked element access throws out-of-range exactly when the index is not below the size and otherwise returns the addressed element itself; the same holds for bit test, set, reset and flip by index, which leave the object unchanged when they throw.',
 ['inputs'],'all sizes (zero included) and all index values',
 'Tests probe a few indices.',
 ['vector.hpp','string.hpp','string_ref.hpp','array.hpp','array_ref.hpp','bitset.hpp'],[('at/test/set/reset/flip','all indexable types')]),
P('C21','Comparison operators agree with each other and the contained values',
 'For every type all six comparison operators, in both operand orders, are consistent with lexicographic (or, for optional and variant, state-then-value) ordering of the contents: equality holds exactly when all contents match, exactly one of less, equal, greater holds whenever that is so for the contents, and mixed forms (empty marker, plain value, string views) agree with the homogeneous ones.',
 ['inputs'],'all pairs of object states and all orderings of their contents',
 'Tests check some operators on some pairs; a swapped operand in one of dozens of operators escapes.',
 ['optional.hpp','variant.hpp','vector.hpp','string.hpp','string_ref.hpp','array.hpp','tuple.hpp','bitset.hpp'],[('operator families','friend operators of all types')]),
P('C22','Equal objects have equal hashes',
 'The hash of a string, string reference or bitset depends on its whole content and on nothing else, so objects that compare equal hash equal; a string, a string reference and a standard string view of the same characters hash alike.',
 ['inputs','histories'],'all contents and all ways to reach a content (inline or heap, any history)',
 'Tests hash a couple of values and cannot see a dependence on stale or unused bytes.',
 ['string.hpp','string_ref.hpp','bitset.hpp'],[('std::hash specialisations','string.hpp, string_ref.hpp, bitset.hpp')]),
P('C23','Iterators traverse exactly the elements and keep constness',
 'Iterators of every sequence type are random-access iterators whose arithmetic, differences, subscripts and comparisons behave like pointers, begin-to-end covers exactly the elements, reverse iterators cover them in reverse order, mutable iterators convert to constant ones and never the other way round, and constant objects never hand out mutable access.',
 ['inputs','programs'],'all positions and distances, all const qualifications',
 'Tests use iterators mostly in range-for; most operators of the five iterator classes are never called.',
 ['array.hpp','array_ref.hpp','string.hpp','string_ref.hpp','vector.hpp'],[('contiguous_iterator','all five classes'),('begin/end families','all sequence types')]),
P('C24','Views denote exactly the given range',
 'A range or string view refers to exactly the elements it was created from: size, data, element access, first/last/sub-ranges, prefix and suffix removal and conversions to and from standard views report precisely the addressed elements, never a different range, and never copy or modify the elements.',
 ['inputs'],'all source ranges, offsets and counts satisfying the preconditions, empty and default-constructed views included',
 'Tests sample a few sub-ranges.',
 ['array_ref.hpp','string_ref.hpp','string.hpp'],[('first/last/subrange','array_ref.hpp'),('substr/remove_prefix/remove_suffix','string_ref.hpp')]),
P('C25','Conversions into views and wrappers reject unsafe sources',
 'Implicit conversion into a view, reference wrapper, array or tuple is possible exactly for sources whose elements are accessible as the target type: constness is never dropped, ranges of other or derived element types, member pointers, throwing callables for non-throwing signatures and unlisted types are rejected without hard errors, and temporaries never bind as mutable objects.',
 ['programs'],'all source types',
 'Rejected programs cannot be part of a compiling test suite beyond the few traits asserted today.',
 ['array_ref.hpp','optional_ref.hpp','variant_ref.hpp','function_ref.hpp','array.hpp','variant.hpp','tuple.hpp','optional.hpp'],[('constructor constraints','view and wrapper classes')]),
P('C26','Calling a function reference calls the referenced object exactly once',
 'A call through a function reference invokes the referenced function or object itself (not a copy) exactly once, passes every argument through with its value category, returns the result unchanged (references stay references), lets exceptions of throwing signatures pass, and for const signatures uses the const call operator; copies and assignments refer to the same target.',
 ['programs','inputs'],'all signatures, callables, argument categories and copies',
 'Tests use a handful of signatures; dangling results, extra copies and overload selection are invisible for plain int functions.',
 ['function_ref.hpp'],[('dispatch thunk','function_ref.hpp invoker::functor'),('storage of object or function pointer','function_ref.hpp storage_t')]),
P('C27','References to alternatives track the bound object and its type',
 'A reference to one of several types or to an optional value denotes exactly the object it was bound to: typed access, visitation and checks yield that very object under the alternative it was bound as, copies and assignments rebind completely, and the referenced object is never copied, moved or destroyed.',
 ['inputs','programs'],'all alternatives, const and mutable bindings, copies, assignments',
 'Tests cover few alternatives and compare values instead of identity.',
 ['variant_ref.hpp','optional_ref.hpp'],[('storage_t get/set','variant_ref.hpp'),('pointer capture','optional_ref.hpp')]),
P('C28','Unused bits of a bitset are always zero',
 'Bits beyond the size of a bitset are zero after every operation, so that counting, all/any/none tests, equality and hashing depend on the size() bits only and report exactly their number, conjunction, disjunction and equality.',
 ['inputs','histories'],'all sizes and all contents, after any operation',
 'Tests use a few sizes; leftovers in the last byte only show for sizes not divisible by eight and certain operations.',
 ['bitset.hpp'],[('trailing mask','bitset.hpp clear_trailing_bits, determine_trailing_mask'),('count/all/any','bitset.hpp')]),
P('C29','Bitset operations change exactly the addressed bits',
 'Setting, resetting, flipping or assigning a single bit (directly or through a proxy) changes that bit only; bulk set, reset, flip, and, or, xor, complement, shifts by any count, construction from an integer and exchange compute for every bit position exactly what the mathematical definition over size() bits says.',
 ['inputs'],'all sizes (up to the bound analysed), all contents, all indices and all shift counts',
 'Contents are exponential in the size; tests sample a few patterns and shift counts.',
 ['bitset.hpp'],[('single-bit operations','bitset.hpp set, reset, flip, reference'),('bulk operations','bitset.hpp operators')]),
P('C30','Bitset stream input and output follow the textual format',
 'Output writes exactly size() digits, most significant bit first; input consumes at most size() digits, stops in front of the first other character without consuming it, stores the digits right-aligned with all other bits zero, sets the fail state exactly if no digit was read, and leaves the bitset unchanged in that case.',
 ['inputs'],'all character sequences including end of input at any point, all sizes',
 'Tests read a few well-formed strings.',
 ['bitset.hpp'],[('operator<<, operator>>','bitset.hpp')]),
P('C31','Requests beyond the size limits are rejected, never wrapped',
 'A request that would make a vector or string exceed its maximum size fails with length-error or bad-alloc before any element is written; no size, capacity or offset computation wraps around for any argument value.',
 ['inputs'],'all count arguments up to the largest integer, all current sizes',
 'Tests cannot allocate near the limits and never pass huge counts.',
 ['vector.hpp','string.hpp'],[('length checks','vector.hpp storage_t(capacity), insert_impl; string.hpp reserve, storage_t(required)')]),
P('C32','Sufficient capacity means no reallocation',
 'Reserving guarantees at least the requested capacity and never reduces it; while the resulting size fits the current capacity, appending, inserting, resizing and erasing neither reallocate nor change capacity, so data() stays the same; removal never allocates, and shrinking never increases capacity nor loses elements.',
 ['inputs','histories'],'all sizes, capacities and operations',
 'Tests check capacity in few spots; needless reallocation preserves all values.',
 ['vector.hpp','string.hpp'],[('capacity tests before allocation','vector.hpp *_impl, reserve; string.hpp reserve, append, insert, replace')]),
P('C33','Every header can be used alone and every operation instantiates',
 'Each public header compiles on its own, in any order and when included from several translation units, with every supported compiler, and every public operation can be instantiated for every admitted element type.',
 ['programs','configurations'],'each header first in a translation unit; every public member',
 'The test sources include the test framework, which drags in most of the standard library first, and never call many members.',
 ALL,[('include lists','top of each header'),('inline/template definitions','all headers')]),
P('C34','Tuple and array store, order and return their elements faithfully',
 'Constructing a tuple or array from n values stores value i as element i; constant-index access and structured bindings denote that very element with the constness and value category of the expression; filling assigns every element; copying copies and swapping exchanges element by element.',
 ['inputs','programs'],'all element types, sizes, indices and reference qualifications',
 'Tests check values of a few small instances, not identity or category.',
 ['tuple.hpp','array.hpp','bitset.hpp'],[('recursive storage','tuple.hpp storage_t'),('get friends','array.hpp, tuple.hpp')]),
P('C35','Deduction and tuple protocol report the right types',
 'Deducing template arguments from constructor arguments yields the documented types (element type and count for arrays, element type and constness for views and optional references, the referenced signature for functions, iterator value type for vectors), and size and element queries of the tuple protocol match the stored elements.',
 ['programs'],'all argument types',
 'Tests deduce a few types; wrong constness or decay compiles and runs.',
 ['array.hpp','array_ref.hpp','optional_ref.hpp','function_ref.hpp','vector.hpp','tuple.hpp','bitset.hpp'],[('deduction guides','end of each header'),('tuple_size/tuple_element','array.hpp, tuple.hpp, bitset.hpp')]),
P('C36','Constant operations never write and the library has no global state',
 'Operations on constant objects do not modify the object or anything reachable from it, and no operation reads or writes mutable global or thread-local state, so distinct objects can be used from different threads freely and one object can be read concurrently.',
 ['schedules','inputs'],'all concurrent uses of constant operations and of distinct objects',
 'Tests are single-threaded; a cached value or shared scratch buffer passes them.',
 ALL,[('const member functions','all headers'),('absence of static data','all headers')]),
P('C37','Growing one element at a time costs amortised constant time',
 'Appending n elements one by one to a vector performs a number of element moves proportional to n.',
 ['inputs','histories'],'all n',
 'Tests check no operation counts.',
 ['vector.hpp'],[('geometric growth','vector.hpp insert_impl')]),
P('C38','Text output honours stream width, fill and state',
 'Writing a string or string reference to a stream behaves like writing the equivalent standard string view.',
 ['inputs'],'all stream states and contents',
 'Tests write to a fresh stream only.',
 ['string.hpp','string_ref.hpp'],[('operator<<','string.hpp, string_ref.hpp')]),
P('C40','Constant expressions give the same answers',
 'In constant expressions, arrays and bitsets can be created, their elements and bits read and written and (arrays) iterated, and range views, string references and optional references of constant data can be created, copied, assigned, queried, iterated and taken apart (string references also compared), with the results the same operations have at run time.',
 ['programs'],'every constant expression over the listed types',
 'A test suite runs the operations at run time; whether they are constant expressions is decided by the compiler for each use.',
 ['array.hpp','array_ref.hpp','string_ref.hpp','bitset.hpp','optional_ref.hpp'],[('constexpr','all value and view types')]),
P('C39','Independently built binaries agree on layout and meaning',
 'An object created by a binary built with one supported compiler and option set can be used and released by a binary built with any other.',
 ['configurations','programs'],'all pairs of supported compilers, platforms and option sets',
 'Tests run in a single binary.',
 ALL,[('fundamental members only','all headers')]),
]
out='/verif/properties.jsonl'
with open(out,'w') as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+'\n')
import sys
for p in props: assert len(p['title'])<=80,p['title']
print(len(props))
