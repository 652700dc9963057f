S = 'src/estd/'
BN = 'Exhaustive (all values) within the stated bounds by SAT; nothing is claimed beyond them. Trusts clang, the IR-to-C translation (cross-validated on every run against a native build), the runtime models and CBMC. '
NA = {}
PROPS = [
 dict(id='C01', title='Text to integer conversion is exact for every text, base and width',
  statement='Converting a character range to an integer consumes exactly the longest valid number prefix (optional minus for signed types, digits of the requested base) and yields its value. A range with no valid number reports an invalid-argument error without moving or writing, and a number that does not fit reports out-of-range, leaves the destination untouched and still points past the digits.',
  q='every character range up to the bound, every base 2..36, every signed/unsigned 8..64-bit type including the limits of each type',
  tests='Tests sample a few decimal and hex strings; sign, limit and base interactions (overflow by one at the minimum value, bare sign, digit equal to base) need every input.',
  files=[S+'internal/charconv/from_chars.hpp', S+'internal/raise_and_add.h', S+'charconv.h'],
  mech=[{'name': 'digit recognition and overflow-checked accumulate', 'where': S+'internal/raise_and_add.h'}],
  note=BN+'Quick: all texts up to 4-8 chars for 8/16-bit and small-base 32-bit types, plus limit-region texts (fixed leading digits, free tail) for 32/64-bit. Free-form long texts of wide types only in thorough.'),
 dict(id='C02', title='Integer to text conversion is exact, minimal and never overruns its buffer',
  statement='Converting an integer to characters produces its canonical representation in the requested base (a minus only for negatives, no leading zeros) and the returned range delimits exactly those characters. When the text does not fit the given range an overflow error is reported and nothing outside the range is written.',
  q='every value of 8/16-bit types in every base, wide types over full range in power-of-two bases and in boundary regions for decimal, every buffer size around the needed length',
  tests='Tests format a few sample numbers; minimum values, exact-fit buffers and one-too-short buffers across bases are not sampled.',
  files=[S+'internal/charconv.hpp', S+'internal/charconv/reverse.hpp', S+'internal/to_string.h'],
  mech=[{'name': 'reverse digit generation into a bounded range', 'where': S+'internal/charconv/reverse.hpp'}],
  note=BN+'Arbitrary decimal 64-bit values are checked only in boundary regions (division by 10 chains over 64 free bits are out of reach).'),
 dict(id='C03', title='Fixed-storage strings edit their text exactly, inside their storage',
  statement='For every string kind (inline, borrowed-buffer and sized-buffer storage, null-terminated or length-tracked) appending, inserting, erasing, assigning, resizing down and clearing leave exactly the text that the same operation gives on an ideal string, provided the result fits. Size, emptiness, iteration, indexing, terminator and copy-out agree with that text, and no byte outside the storage is touched.',
  over=['inputs', 'histories'], q='every text up to capacity 7 as starting state, every operand text up to 4 characters, every position and count, each mutating operation (any reachable state, hence any history within the capacity)',
  tests='Tests apply each edit to one or two literal strings; positions at the ends, full strings and count clamping are combinations nobody samples.',
  files=[S+'internal/dynamic_array.h', S+'internal/string.h', S+'internal/impl/dynamic_array.h', S+'internal/layer1/string.h', S+'internal/layer2/string.h', S+'internal/layer3/string.h', S+'allocators/fixed.h'],
  mech=[{'name': 'grow / raw_insert / erase on a locked buffer', 'where': S+'internal/dynamic_array.h'}],
  note=BN+'Capacity 7; exceeding the capacity is the caller\'s error in this library and is assumed away.'),
 dict(id='C04', title='String search, comparison, prefix/suffix and view slicing follow the standard',
  statement='Searching forwards and backwards for a character, a text or any of a set of characters from any position returns the standard result, including not-found for positions past the end and the conventions for empty needles. Equality and compare()==0 hold exactly for equal text, compare is antisymmetric and consistent across string kinds, prefix/suffix tests are exact, and views sliced by position/count or trimmed denote exactly the clamped sub-range.',
  q='every text up to 5-7 characters, every needle up to 2-3 characters, every start position and count including absent ones',
  tests='Tests search two or three literals; off-by-one at the end of text, empty text and positions beyond the end are not covered.',
  files=[S+'internal/runtime_array.h', S+'internal/string.h', S+'string_view.h', S+'internal/container/starts_with.h', S+'internal/container/ends_with.h', S+'internal/container/specializer.h'],
  mech=[{'name': 'bounded scans over the locked data', 'where': S+'internal/runtime_array.h'}],
  note=BN+'Ordering of texts of different length is only checked for antisymmetry (this library orders by length first).'),
 dict(id='C05', title='Fixed-capacity vectors behave as sequences inside their storage',
  statement='Appending, emplacing, inserting and erasing anywhere in a vector of any element type and size leave exactly the sequence that the operation gives on an ideal array while it fits the capacity, with whole elements moved and every untouched element kept. Elements are made where there was none and ended once when erased, popped, cleared or resized away. Size, emptiness, capacity, front/back, indexing and iteration agree with that sequence.',
  over=['inputs', 'histories'], q='every content and length up to capacity 5 as starting state, every position, every value, element sizes of 1, 4 and 8 bytes and a class type; each single mutation (hence any history)',
  tests='Tests insert and erase one or two ints at the ends; element sizes other than one byte, every position and a full vector need all states.',
  files=[S+'vector.h', S+'internal/dynamic_array.h', S+'internal/impl/dynamic_array.h', S+'allocators/fixed.h'],
  mech=[{'name': 'raw_insert / raw_erase in element units', 'where': S+'internal/dynamic_array.h'}],
  note=BN+'Capacity 5; exceeding the capacity is the caller\'s error. Ending the elements that remain when the vector itself ends is not claimed.'),
 dict(id='C06', title='Ring-buffer deques, queues and stacks keep order at every ring position',
  statement='A fixed-capacity double-ended queue keeps exactly the elements pushed and not yet popped, in order, from either end and from every wrap position, with full, empty, size, front, back and iteration agreeing. Pushing to a full one and popping an empty one report failure and change nothing, a moved-to deque owns its elements, elements are ended once when popped, queue is first-in first-out and stack last-in first-out.',
  over=['inputs', 'histories'], q='every ring position and fill of small capacities with symbolic elements, every single operation, and every operation sequence of length 4 (8 in thorough)',
  tests='Tests push and pop a few values from a fresh queue; wrap positions, exactly-full and mixed-end sequences are histories.',
  files=[S+'queue.h', S+'stack.h'],
  mech=[{'name': 'head/tail wrap with empty/full disambiguation', 'where': S+'queue.h'}],
  note=BN+'Capacities 1 to 4.'),
 dict(id='C07', title='Heaps and priority queues always yield the extreme element, losing none',
  statement='Making a heap, pushing, popping and sorting maintain the heap order under any comparison and preserve the multiset of elements. A priority queue always presents the greatest element under its comparison, including after erasing arbitrary elements by value or predicate, and removes exactly one element per pop.',
  over=['inputs', 'histories'], q='every array of up to 4-6 elements with all values and duplicates, every push/pop/erase position and short sequence; three comparison kinds',
  tests='Tests push one fixed order of numbers; order violations show only for certain shapes, duplicates and removals from the middle.',
  files=[S+'internal/algorithm/heap.h', S+'internal/heap.h', S+'queue.h', S+'internal/priority_queue.h'],
  mech=[{'name': 'sift up/down', 'where': S+'internal/algorithm/heap.h'}],
  note=BN+'Sizes up to 5 in quick, 8 in thorough (arrays); 3 in priority queues.'),
 dict(id='C08', title='Sequence algorithms produce exactly the defined result and stay in range',
  statement='Copying, filling, reversing, swapping, searching, comparing, accumulating, clamping and extreme-element selection over any range, empty and overlapping in the permitted direction included, return the defined position or value. They write only their destination and follow the supplied predicate or comparison, ties included.',
  q='every range of up to 6 elements (10 in thorough), every value, every overlap offset, integers of every width for swap',
  tests='Tests run each algorithm on one literal array; empty ranges, ties, self-swaps and overlaps are the untested corners.',
  files=[S+'algorithm.h', S+'internal/algorithm/raw.h', S+'utility.h', S+'internal/utility.h', S+'numeric.h', S+'iterator.h'],
  mech=[{'name': 'hand-written standard algorithms for targets without one', 'where': S+'algorithm.h'}],
  note=BN),
 dict(id='C09', title='Unordered maps and sets lose, duplicate or corrupt no entry over any history',
  statement='After any sequence of insertions, erasures (by key, by iterator, with or without compaction) and clears, an unordered map or set contains exactly the entries inserted and not erased. Each has its own value and at most one entry per key unless duplicates were asked for. Lookup, counting, size, iteration and bucket iteration agree; an insertion that finds no room, or a null key, changes nothing; equality ignores insertion order.',
  over=['inputs', 'histories'], q='every key choice (all colliding and neighbouring-bucket keys, the null key) and value over histories of up to 5 insert/erase operations on small tables, plus bucket overflow and a wide table',
  tests='Tests use few keys that mostly do not collide; losses need a collision chain, an erasure inside it and another operation.',
  files=[S+'internal/container/unordered/base.h', S+'internal/container/unordered/traits.h', S+'internal/container/unordered_map.h', S+'internal/container/unordered_set.h'],
  mech=[{'name': 'linear probing in buckets with sparse markers', 'where': S+'internal/container/unordered/base.h'}],
  note=BN+'Tables of 4, 8, 10 and 72 slots. Values left in a default-created entry are unspecified in this library.'),
 dict(id='C10', title='Optional, expected and variant always hold what was last put in them',
  statement='After any sequence of construction, assignment, copy, move, emplace and reset an optional, expected or variant reports exactly the state (empty, value, error, alternative) and value last given to it. Each contained object is built exactly once, used only while alive and destroyed exactly once. Equality, inequality, comparison with values, value_or, get_if and holds_alternative agree with that state, and storage is aligned for its content.',
  over=['inputs', 'histories'], q='every value and state, every operation pair (triples for plain types) from every starting state including self-assignment, with lifetime-tracking contained types; bit-field and sentinel optionals included',
  tests='Tests construct and assign one or two sample values; leaks, double destruction and stale state show only for particular from-state/operation/to-state combinations.',
  files=[S+'optional.h', S+'internal/optional.h', S+'expected.h', S+'internal/expected.h', S+'variant.h', S+'internal/variant.h', S+'internal/variant/storage.h'],
  mech=[{'name': 'assign_or_init, destroy and index bookkeeping over raw storage', 'where': S+'internal/variant/storage.h'}],
  note=BN+'Ordering of an empty optional against a value follows this library (false), not the standard.'),
 dict(id='C11', title='Stream buffers move every character once, in order, inside their storage',
  statement='A stream buffer over a fixed span, a string, a buffered sink or a ring buffer accepts exactly the characters that fit, in order, for any mix of single-character and block writes, and reports how many it took. Reading returns exactly those characters, with peek, advance, unget, block read, seek and the reported position agreeing with one cursor. After a sync everything accepted has reached the sink exactly once. Every character value (0 and 0xFF included) passes through, end of input is reported only at the end, and nothing outside the given storage is read or written.',
  over=['inputs', 'histories'], q='every content and length of small buffers, every capacity, sequences of 2-3 operations of symbolic kind, size and characters, for span, string, buffered (string and ring) and virtually wrapped buffers and their iterators',
  tests='Tests write one literal and read it back; exactly-full buffers, NUL and 0xFF characters, wrapped rings and seeks past either end are not sampled.',
  files=[S+'streambuf.h', S+'internal/impl/streambuf.h', S+'internal/impl/streambuf/span.h', S+'internal/impl/streambuf/buffer.h', S+'internal/impl/streambuf/bipbuf.h', S+'internal/streambuf.h', S+'sstream.h', S+'internal/istreambuf_iterator.h'],
  mech=[{'name': 'put/get area bookkeeping by position in each buffer kind', 'where': S+'internal/impl/streambuf.h'}],
  note=BN+'Capacities up to 5-6 characters.'),
 dict(id='C12', title='Output streams print exactly the formatted text, or report failure',
  statement='Inserting integers, characters, strings and booleans appends exactly their formatted representation (base, case and base-prefix flags, width, fill and left/right/internal adjustment) in insertion order. Nothing is lost, duplicated or written past the underlying storage, width applies to one item, manipulators change exactly the setting they name, and when the sink cannot take a character the stream reports failure.',
  over=['inputs', 'histories'], q='every value of 8/16-bit integers and full range of 32-bit hex/octal, every flag and width/fill combination, every capacity, short insertion sequences',
  tests='Tests print a few numbers into ample buffers; padding of negative or prefixed numbers, exhausted buffers and combinations of flags are not sampled.',
  files=[S+'ostream.h', S+'internal/ostream.h', S+'iomanip.h', S+'internal/iomanip.h', S+'internal/ios_base.h', S+'internal/ostream/integer.h', S+'internal/locale/num_put.h', S+'internal/locale/iterated/num_put.h'],
  mech=[{'name': 'num_put digit generation and padding', 'where': S+'internal/locale/num_put.h'}],
  note=BN+'Width is limited to 15 and fill to blank..underscore by the library\'s packed state; character insertion always right-adjusts and strings ignore width in this library, which is not claimed otherwise.'),
 dict(id='C13', title='Input streams extract numbers, words and lines exactly, losing no character',
  statement='Extracting a number skips blanks, consumes exactly the longest run that belongs to the number in the current base and yields its value; it fails (zero) when there is none and saturates and fails when it does not fit. Extracting a word, a character, a line, a block or a skipped region takes exactly the characters the standard assigns to it, reports the count, leaves the stream at the next character and sets fail/eof exactly when the standard does. Character classification is exact for every character and mask.',
  over=['inputs', 'histories'], q='every input text up to 4-6 characters (all bytes) and every type limit of 8/16-bit integers in three bases, every delimiter, buffer size and count, sequences of 3 unformatted operations',
  tests='Tests read one well-formed sample; texts that end early, overflow, bare signs, lines that exactly fill the buffer and NUL characters are the corners.',
  files=[S+'istream.h', S+'internal/istream.h', S+'internal/locale/num_get.h', S+'internal/locale/iterated/num_get.h', S+'internal/locale/ctype.h', S+'internal/chooser.h', S+'internal/raise_and_add.h'],
  mech=[{'name': 'incremental number reader and chooser', 'where': S+'internal/locale/num_get.h'}],
  note=BN+'32-bit and floating point extraction only in thorough. Where the stream stands after a number that fails at the end of input is not claimed.'),
 dict(id='C14', title='The bip buffer is a first-in first-out byte queue with contiguous reads',
  statement='A bip buffer of any capacity hands out the bytes offered to it exactly once and in order, whatever the history of offers and polls and wherever its regions wrap. An offer takes all of its bytes or none, the reported free room is always accepted and never exceeds what is free, whatever peek or poll returns is contiguous and is the oldest data, something is readable whenever something is stored, draining it makes the whole capacity available again, and at least half of what is free is on offer while the content is in one piece. Nothing outside the buffer is written.',
  over=['inputs', 'histories'], q='all sizes and contents over histories of 4 operations (6 in thorough) on a 5-byte buffer, with copying and in-place offers, inline, caller-supplied and heap storage',
  tests='Tests offer and poll one block; wrapping, two regions in use and exactly-full states need a history.',
  files=[S+'ext/willemt/bipbuffer/bipbuffer.c', S+'internal/bip/buffer.h'],
  mech=[{'name': 'two-region bookkeeping', 'where': S+'ext/willemt/bipbuffer/bipbuffer.c'}],
  note=BN+'Capacity 5. Negative sizes are the caller\'s error.'),
 dict(id='C15', title='Linked lists visit exactly the linked elements, in order, after any edits',
  statement='After any sequence of pushing at either end, popping, inserting or erasing after a position, replacing, removing by value or predicate (first or all) and clearing, a linked list visits exactly the elements linked in and not removed, in the order those operations define. Front, back and emptiness agree, returned positions denote the element the operation defines, bidirectional traversal is symmetric, and a node removed from a list can be linked in again.',
  over=['inputs', 'histories'], q='every choice of node and position over histories of 3-5 operations (6 in thorough) on 5 nodes, every value pattern for removals',
  tests='Tests build one list of three nodes; neighbouring removals, emptied and refilled lists and reused nodes are histories.',
  files=[S+'forward_list.h', S+'list.h', S+'internal/list_node.h', S+'internal/reverse_list.h', S+'traits/list_node.h', S+'iterators/list.h', S+'internal/list/intrusive_forward.h', S+'internal/list/base.h', S+'internal/list/iterator.h'],
  mech=[{'name': 'splicing through node traits', 'where': S+'internal/list_node.h'}],
  note=BN+'Freeing of nodes owned by a list, and inserting before end(), are not offered by this library and not claimed.'),
 dict(id='C16', title='Pools and shared references hand out, keep alive and release exactly once',
  statement='A memory pool hands out distinct blocks of its own until none is left, keeps their content, takes them back in any order and counts them exactly; a typed pool builds and destroys each object once. An object behind shared references stays alive exactly as long as at least one of them owns it and is destroyed or released exactly once, whatever the order of copying, moving, swapping, self-assignment, resetting and destruction, with use counts and access agreeing.',
  over=['inputs', 'histories'], q='every history of 4-5 operations (6 in thorough) on 3-block pools and on a master with three shared references, and on rings of 3-4 linked references',
  tests='Tests copy a reference once or twice; releases in unusual order, reset masters, self-assignment and moved-from references are histories.',
  files=[S+'internal/memory/v1/pool.h', S+'memory.h', S+'internal/linked_ref.h', S+'internal/list/intrusive_forward.h', S+'internal/value_evaporator.h'],
  mech=[{'name': 'eval_delete on control block count', 'where': S+'memory.h'}],
  note=BN+'Resetting or destroying an inline master while others still refer to its storage after its lifetime is the caller\'s error. Weak references are unfinished in this library.'),
 dict(id='C17', title='Durations, time points and units compute exactly across their periods',
  statement='Converting a duration or unit to a finer period is exact, to a coarser one drops only the fraction (towards zero), there and back again is the identity, and unrelated ratios convert by their exact factor. Durations, time points and units of different periods and representations compare as the times or quantities they denote, and sums, differences, multiples, negation, absolute value and the assigning operators are exact in the common type. A projected (offset) unit keeps its quantity through every conversion. Interchange with std::chrono keeps the value.',
  over=['inputs'], q='every count within the stated range, across about 25 pairs of periods and representations',
  tests='Tests convert one or two constants; fractions, negative counts, mixed signs and widths, and unrelated ratios need all counts.',
  files=[S+'internal/chrono/duration.h', S+'internal/chrono/duration.hpp', S+'internal/chrono/operators.hpp', S+'internal/chrono/time_point.h', S+'internal/chrono/ratio.h', S+'internal/chrono/math.h', S+'internal/units/base.h', S+'internal/units/operators.hpp', S+'internal/units/common_type.h', S+'internal/units/percent.h', S+'internal/units/bytes.h', S+'internal/promoted_type.h', S+'ratio.h', S+'internal/numeric.h', S+'port/std/chrono.h'],
  mech=[{'name': 'common period by gcd/lcm, conversion by ratio_divide', 'where': S+'internal/units/base.h'}],
  note=BN+'Counts are limited so that the exact result fits the result\'s representation (2*10^9 in 64 bits, less for coarse to fine); overflow is the caller\'s error. Mixing a wider unsigned with a narrower signed representation is by design computed in the signed type and not claimed beyond its range. 64-bit unsigned representations do not combine.'),
 dict(id='C18', title='Calendar dates and clock fields are those of the calendar and the clock',
  statement='The day count of a clock gives the year, month and day of the Gregorian calendar, and the next count gives the next date. Leap years, the last day of each month and the validity of years, months, days and dates are those of that calendar. A duration splits into sign, hours, minutes, seconds and the rest, each within its range and together adding up to the duration. Adding years or days to calendar fields is exact.',
  over=['inputs'], q='every date from 1899 to 2102 (1600 to 2400 in thorough), every year and month for leap years and month lengths, every clock time within the stated range',
  tests='Tests look at one date and one clock time (and leave the day out); century years, month ends and long durations are the corners.',
  files=[S+'internal/chrono/units.hpp', S+'internal/chrono/formatter.hpp'],
  mech=[{'name': 'date from day count', 'where': S+'internal/chrono/formatter.hpp'}],
  note=BN+'hours are 8 bits in this library, so durations are below 256 hours. Milliseconds are decided up to 7 hours in quick.'),
 dict(id='C19', title='Locale facets convert text and values and classify characters as documented',
  statement='num_put writes the number in the base, letter case, width, fill and adjustment the flags ask for, whatever they are, and nothing beyond; bools by digit or by the locale\'s names. num_get reads the longest number at the start of the text in the base asked for, stops at the first character that is not part of it, saturates and fails when the value does not fit, stores 0 and fails when there is no number, and reports the end of input - in one go, through a stream buffer, or one piece at a time alike. Reading a bool by name takes exactly that name. Character classes, digits and the locale\'s names are the ones of the locale.',
  over=['inputs'], q='every text up to 4 to 6 characters (all 256 character values), every value of 8 and 16 bits, every base, case, width up to 12, fill and adjustment',
  tests='Tests read a handful of literals; overflow, minus signs alone, letters just outside the base, truncated names and pieces cut anywhere need all texts.',
  files=[S+'internal/locale/num_put.h', S+'internal/locale/num_get.h', S+'internal/locale/iterated/num_get.h', S+'internal/locale/cbase.h', S+'internal/locale/ctype.h', S+'internal/locale/numpunct.h', S+'internal/locale/money.h', S+'internal/locale/utility.h', S+'internal/chooser.h', S+'internal/raise_and_add.h', S+'internal/istreambuf_iterator.h'],
  mech=[{'name': 'reading by state machine', 'where': S+'internal/locale/iterated/num_get.h'}, {'name': 'name recognition', 'where': S+'internal/chooser.h'}],
  note=BN+'Negative numbers are written in base 10 only. Floating point reading, thousands separators and the unset base (0x/0 prefixes, unimplemented: always fails) are outside. Names that share a first letter are a documented limit of the name chooser.'),
 dict(id='C20', title='Fixed arrays, spans, fixed maps, pairs and tuples hold and show their elements',
  statement='A fixed array keeps its elements in order with nothing around them, starts them as listed and the rest as zero, and compares element by element. A span shows exactly the elements (or bytes) it was made of, lets them be written through, and its parts lie within it: a subspan to the end stops at the end. A fixed map finds the first entry of a key, in place, if and only if there is one. Pairs order by their first, then their second part. A tuple keeps each element apart - empty ones take no room - starts them value-initialized, builds and destroys each once, and hands them in order to a function or a visitor.',
  over=['inputs'], q='all element values, every index, length, offset and count of arrays, spans and maps up to 7 elements, all keys; tuples of up to 4 elements',
  tests='Tests look at a few constants; subspans that reach the end, lists shorter than the array, equal keys, missing keys and aliasing writes need all of them.',
  files=[S+'array.h', S+'internal/array.h', S+'span.h', S+'map.h', S+'internal/legacy/array.h', S+'utility.h', S+'internal/tuple.h', S+'internal/tuple/get.h', S+'internal/tuple/apply.h', S+'internal/tuple/make.h', S+'internal/tuple/sparse.h', S+'internal/variadic/visitor.h', S+'internal/raw/cstddef.h'],
  mech=[{'name': 'recursive storage with empty elements left out', 'where': S+'internal/tuple/sparse.h'}, {'name': 'views by pointer and count', 'where': S+'span.h'}],
  note=BN+'Offsets and counts outside the span, and lists longer than the array, are the caller\'s error. layer1::map is decided with a full list of entries (it keeps no count).'),

 dict(id='C21', title='Functions call what they hold, own what they keep, and locks hold what they own',
  statement='A function calls the callable it refers to, once, with its arguments in order and its captured state going on from call to call; an empty one says so. Models of methods call that method on that object. An owning function keeps exactly one callable of its own: copies and assignments (of itself too) share nothing with their source, moves take the callable along, the caller keeps what was not moved in, and every callable is destroyed exactly once. Inline and method functions refer to their own model wherever they are copied. reference_wrapper refers, invoke reaches members of objects, pointers and wrappers. A lock unlocks, once, exactly the mutex it owns.',
  over=['inputs', 'histories'], q='all arguments and captured values, the three model kinds, every way to copy, move, assign and rebind a function, all ways to construct a lock and sequences of 5 lock operations',
  tests='Tests never copy or self-assign an owning function, never look at the callable the caller keeps, and have no test for locks.',
  files=[S+'functional.h', S+'internal/functional.h', S+'internal/impl/functional/fnptr1.h', S+'internal/impl/functional/fnptr2.h', S+'internal/impl/functional/virtual.h', S+'internal/impl/functional.h', S+'internal/invoke.h', S+'obsolete/functional.h', S+'exp/functional.h', S+'mutex.h'],
  mech=[{'name': 'type erased model with a function pointer, a deleter and a cloner', 'where': S+'functional.h'}, {'name': 'member function pointers cast to the model base', 'where': S+'internal/impl/functional/fnptr1.h'}],
  note=BN+'Calling an empty function is the caller\'s error. A callable that cannot be copied makes an empty copy. obsolete::bind is decided for bound values that survive being moved from (it moves them out on the call, by design of apply). The mutex is a stand-in which records its calls; real threads are out of reach of the encoding.'),
 dict(id='C22', title='Bytes, flags, hashes, limits and character classes are what they say',
  statement='byteswap reverses the bytes of every integer type. flags combine bit by bit without touching other bits, whatever the size of the enumeration. The FNV hashes follow the published recurrence for either sign of char, equal text has equal hashes whoever stores it, and integers hash injectively. numeric_limits gives the ends, width, kind and decimal digits of each type, and length<base> characters always suffice for the text of any value. Character classes and digit values are those of ASCII, in every base from 2 to 36. accumulate folds from left to right, and the digit-by-digit arithmetic under the number parsers reports overflow exactly.',
  over=['inputs'], q='all values of every integer type (64-bit decimal texts: the ends), all characters, bases 2 to 36, hashes of any state and byte and of texts up to 2 characters (thorough 3 or 4)',
  tests='Tests look at one value of two types for byteswap, at one text per hash, and at no white space but the blank.',
  files=[S+'bit.h', S+'flags.h', S+'limits.h', S+'internal/limits/integer.h', S+'internal/limits/traits.h', S+'internal/functional/hash.h', S+'internal/string/hash.h', S+'cctype.h', S+'internal/cctype.h', S+'internal/locale/cbase.h', S+'internal/locale/ctype.h', S+'numeric.h', S+'internal/raise_and_add.h', S+'internal/cstdlib.h', S+'internal/enum.h'],
  mech=[{'name': 'FNV recurrence, 32-bit by multiplication, 64-bit by shifts', 'where': S+'internal/functional/hash.h'}, {'name': 'overflow builtins', 'where': S+'internal/raise_and_add.h'}],
  note=BN+'Long hashes follow from the single step, which is decided for every state and byte, and the chaining, which is decided for the shortest texts only (32-bit multiplication chains are hard for SAT).'),
 dict(id='C23', title='Growing containers keep their content as memory moves or runs out',
  statement='A vector or string over an allocator which hands out blocks behaves as the sequence of what was put in, whatever growth did to its memory in between: push, emplace, insert of one, of a range and of an element of its own, erase, pop, assign, append and assignment of buffers, texts, characters and strings, iteration, comparison, find and copy. Insert returns an iterator to what it inserted. reserve only grows, shrink_to_fit keeps the content, nothing moves while it fits, and a block once handed back is never touched. When no memory is to be had, reserve and resize report it and insert of a range does nothing, and size, content, capacity and block are what they were. A copy is separate from its original, and a container gives its memory back when it ends (neither holds today: known findings K1 and K2).',
  over=['inputs', 'histories', 'faults'], q='all elements, characters, positions and erase counts; vectors of up to 5 and strings of up to 8, started in an empty, an exactly full and a roomy block; failure of the first and of each later allocation',
  tests='Tests use an allocator whose blocks rarely move, never fail an allocation, never reserve less than there is, and never insert an element of the vector itself.',
  files=[S+'internal/dynamic_array.h', S+'internal/impl/dynamic_array.h', S+'internal/impl/handle_desc.h', S+'allocators/handle_desc.h', S+'internal/runtime_array.h', S+'internal/container/specializer.h', S+'vector.h', S+'string.h', S+'traits/allocator_traits.h'],
  mech=[{'name': 'handle descriptor: handle, size and allocator of a block', 'where': S+'internal/impl/handle_desc.h'}, {'name': 'ensure_total_size and grow', 'where': S+'internal/dynamic_array.h'}],
  note=BN+'The allocator is a stand-in over malloc and free, so that reading a block which was given back, or beyond one, is itself a violation. Strings which compute their length from a terminator, and elements with destructors, are C03 and C05.'),
 dict(id='C24', title='Handle-based memory is touched only while it is locked',
  statement='A vector or string over an allocator whose memory is only where lock() says it is until the matching unlock() never reads or writes it outside such a pair, never locks memory it gave back or does not have, and has undone every lock when an operation returns: push, emplace, insert, erase, pop, assign, append, element access and comparison through accessors, iteration with explicit locks, compare, equality, find, copy, starts_with and ends_with. The content is what it would be in memory which stays.',
  over=['inputs', 'histories'], q='all elements, characters and positions; vectors of up to 5 elements and strings of up to 7 characters, with and without growth, two containers at a time; an allocator which has no more room',
  tests='All allocators of the tests return plain pointers and unlock does nothing, so a missing lock or unlock cannot show.',
  files=[S+'internal/dynamic_array.h', S+'internal/runtime_array.h', S+'internal/impl/handle_desc.h', S+'internal/container/accessor.h', S+'internal/container/iterator.h', S+'internal/container/handle_with_offset.h', S+'internal/container/specializer.h', S+'traits/allocator_traits.h', S+'string.h'],
  mech=[{'name': 'lock and clock, unlock and cunlock', 'where': S+'traits/allocator_traits.h'}, {'name': 'accessor: allocator, handle and offset', 'where': S+'internal/container/accessor.h'}],
  note=BN+'The allocator is a stand-in: the first lock copies the block to a window, the last unlock copies it back and overwrites the window, so that an access outside the pair sees or changes the wrong memory. Iterators unlock once more when they end (documented in the code); the stand-in ignores an unlock of what is not locked. Dereferencing a locking iterator with * pins the memory until the iterator ends, by design; the harness uses its lock and unlock.'),
 dict(id='C25', title='Units print as their count, SI prefix and name',
  statement='A quantity put on a stream as a unit, or written in full or abbreviated, is its count followed by its SI prefix and unit (k and V, or kilo and volt), and the text consists of nothing else: integer counts in decimal with their sign whatever base the stream is in (which is left as it was), floating point counts truncated to two decimals with the sign also of fractions between -1 and 0, and a space before a full name, or before an abbreviation where asked for. Bytes, kilobytes, megabytes and gigabytes and percents name themselves.',
  over=['inputs'], q='all 16 bit signed and unsigned counts, all quarters of a 16 bit range and all 64ths around zero as floating point counts; every SI prefix from nano to tera, every way to write it',
  tests='Tests print about ten quantities, all positive.',
  files=[S+'internal/units/ostream.h', S+'internal/units/si.h', S+'internal/units/bytes.h', S+'internal/units/percent.h', S+'internal/units/fwd.h', S+'internal/units/base.h', S+'internal/ostream_basic_string.hpp'],
  mech=[{'name': 'write, write_abbrev and put_unit', 'where': S+'internal/units/ostream.h'}, {'name': 'names of SI prefixes', 'where': S+'internal/units/si.h'}],
  note=BN+'Counts which are not a multiple of 1/64 are outside the bounds of the quick check, as are counts beyond an int.'),
 dict(id='C26', title='Observers hear each event once, output iterators write each value once',
  statement='Notifying a subject calls each observer which listens to that event, and no other, exactly once in the order in which they were named, with the event and with the context where one is given and wanted; a proxy passes on what it hears. An output iterator over a stream buffer, a stream or a container writes each value assigned to it once and in order, whether and how it is incremented in between, and the stream buffer one reports from then on that a write failed. Value holders (evaporators and providers) give back the value, or refer to the object, they were made or assigned with.',
  over=['inputs', 'histories'], q='all event values and contexts; up to three observers, static, by reference and mixed; all characters and ways to step, a buffer of 0 to 4 places',
  tests='Tests notify with one or two fixed values and look at one counter; ostream_iterator, back_insert_iterator and a failing ostreambuf_iterator are not tested.',
  files=[S+'exp/observer.h', S+'iterator.h', S+'internal/ostream_iterator.h', S+'internal/iterator/back_insert.h', S+'internal/value_evaporator.h'],
  mech=[{'name': 'subject and notify_helper', 'where': S+'exp/observer.h'}, {'name': 'ostreambuf_iterator', 'where': S+'iterator.h'}],
  note=BN+'Subjects over a run time container of observers cannot be filled in the current code and are not claimed.'),
 dict(id='C27', title='Memory pools hand each slot out once, lose none and keep what is in them',
  statement='A pool of N objects hands out each of its slots to one user at a time, whatever the order in which they are taken and given back, reports when there is none left, counts those which are free, and leaves the content of the others alone; what is constructed in it is destroyed exactly once, and an object shared out of it is destroyed and its slot given back with the last reference. Lists made over the slots of a pool leave its free slots alone. A heap with handles hands out chunks at least as large as asked for, inside its storage and disjoint from all others; chunks and handles given back can be had again, no byte is lost, and maintenance changes neither the content of chunks in use nor the total which is free.',
  over=['inputs', 'histories'], q='all histories of 5 operations over 3 slots of each pool; all contents; chunks of 16 to 96 bytes out of 96 with up to three handles, in a dozen histories of allocation, release and maintenance',
  tests='Tests take one or two slots and give one back; a pool is never exhausted, the heap is never full, and maintenance is run on two free chunks.',
  files=[S+'exp/memory/memory_pool.h', S+'exp/memory/memory_pool2.h'],
  mech=[{'name': 'memory_pool_internal and its free list', 'where': S+'exp/memory/memory_pool.h'}, {'name': 'memory_pool and virtual_memory', 'where': S+'exp/memory/memory_pool2.h'}],
  note=BN+'Alignment of heap chunks is not claimed: sizes are not rounded in the current code (a TODO there).'),
]
