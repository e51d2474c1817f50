N = {}
CAUGHT = {}
N['R01'] = """
Reference counts are ghost integers per object. Every constructor, assignment, conversion, adopt/take/forget and
comparison of RefPtr and AlreadyRefed runs under every aliasing of the operands (self, same object, an object owned by
the one being released, null); at each release the count is checked, and at the end every count must equal the number of
live handles."""
N['R02'] = """
AddRef/Release/lifetime for plain, virtual and forwarded counted bases with a symbolic number of foreign references
(any value up to the type's range): destruction exactly at zero, wrap-around of the count reported, copying an object
does not copy its count."""
N['R03'] = """
Every atomic read of a shared count returns any admissible value and the object disappears from view the moment our last
reference is gone; the decision to destroy must come from the one atomic step that returned the last reference, with
release on the decrement and acquire before destruction. Assumes indivisible std::atomic operations."""
N['R04'] = """
The slot word is a lock typestate (free/held with ownership of the pointer); other threads leave arbitrary contents at
every atomic read. Checked: retain and replace only while held, publish with release, take with acquire, old value released
after the slot is free. Spinning is abstracted by the fixpoint."""
N['V01'] = """
Payload typestate (raw, live, moved, dead) through every operation of Maybe, StorageBuffer and friends, every
combination of empty/full operands, self-assignment, non-copyable payloads, alignment of the storage."""
N['V02'] = """
Ownership typestate of the stored callable (inline, heap, empty) for every constructor, assignment (const and non-const
source, callable source), move, clear, swap-like history of two steps, over callables of 1 to 40 bytes around the inline limit. "Fits"
means the holder object fits."""
N['V03'] = """
Argument tokens, addresses and value categories are followed through operator() for inline and heap callables, lambdas,
function pointers and references; the callable is called once and its result is the caller's."""
N['A01'] = """
FixedArray of any size: one arbitrary element and its buffer through every operation including failed allocation and
self-assignment; the std::vector helpers (MoveExtend etc.) with tokens per element."""
N['A02'] = """
Every requested count is symbolic, every allocation may fail; the byte size passed to the allocator must be the exact
product (wrap-around is a separate case), failure leaves an object that can be destroyed, iterated and assigned."""
N['A03'] = """
Each block carries the identity of the policy that allocated it (policies have arbitrary identities and are copied and
moved by the containers); each free must go to an equal policy, and allocPolicy() must be that policy."""
N['H01'] = """
One arbitrary slot of a table of any power-of-two capacity for whole-table operations (init, clear, destruction), every slot
of small tables with arbitrary contents (free, removed, live; any stored hash) for add, remove, rehash and iteration: payload
constructed exactly while the slot is live."""
N['H02'] = """
After every operation on an arbitrary small table the element and removed counts equal the slots, the capacity is a
power of two within the limit, and at least one slot stays free. The limit is decided for symbolic capacities."""
N['H03'] = """
Tables whose every slot is arbitrary and every home position of the searched key: a search finds the key exactly if it is
on its probe path before the first free slot, adding puts it where searches look, rehashing keeps all findable.
The thorough tier adds the remaining homes."""
N['H04'] = """
Every content of a small table, erasing or not at every step: each live entry is visited exactly once, nothing else is."""
N['H05'] = """
The compiler is told to mark every undefined operation (`-fsanitize=...` with traps); the analysis shows the marks are
unreachable for edge values, arbitrary keys and texts. Texts of up to three bytes of every kind are hashed at two addresses and
cut at every place; texts of any length are read inside their block. How well the hashes spread is N02, not claimed."""
N['H06'] = """
Histories of three operations over three keys with equal, neighbouring, reserved and wrapping hashes against a plain model
(arrays of booleans and values), every way of adding, clearing, iterating, moving, and tables that grow with removed slots in them."""
N['L01'] = """
Every history over a few nodes, and each operation at every position of lists of up to four members: links mutual, the
count exact, removed nodes unlinked in both build modes, iteration (also while removing) in order. Operations touch only a node
and its neighbours, so longer lists add nothing."""
N['Q01'] = """
Payload tokens through add, pop, peek, clear, moves of queues up to sixteen elements under every outcome of every
comparison: nothing is lost, duplicated, used after move, or read out of bounds."""
N['Q02'] = """
One operation on an arbitrary heap of up to eighteen elements with arbitrary priorities keeps heap order and removes a best
element; induction covers all histories within that size."""
N['B01'] = """
Bit-exact for add/subtract helpers at full width over all inputs; multiplication at one eighth of every width."""
N['B02'] = """
Every operator of EnumFlags/BitFlags over every underlying type, signed and unsigned, against set algebra bit by bit; on 32- and 64-bit
targets."""
N['B03'] = """
All 2^32 / 2^64 encodings against IEEE 754's definition of NaN and infinity, bit by bit."""
N['B04'] = """
Every tag width, every power-of-two alignment, all operands, 32- and 64-bit targets."""
N['B05'] = """
For every possible index the operand's exact condition for that answer, all operands, 32- and 64-bit."""
N['T01'] = """
Two witnesses: the shared one iterates the transitions of all other threads to a fixpoint at every access to the key
state (creation takes time and may fail; no access to the key before its creation completed or after it failed; creation at
most once); the alone one checks values, callbacks at exit and the single-threaded build. Limits under C above."""
N['T02'] = """
Held/free state of the system mutex as ghost state with any outcome of try_lock and two thread identities: the owner record
matches on lock, try_lock, unlock, scoped helpers and condition waits."""
N['T03'] = """
The thread body runs after the starter and its storage are gone; the name is set before the callback, the callback runs once
with its arguments, from their own copies."""
N['G01'] = """
Every history of cancel, move and exit over up to three guards, named and temporary callables, SaveAndSet, StackLinked; each effect
counted."""
N['C01'] = """
Each header first and alone in a unit that explicitly instantiates its classes and uses every public function, clang++ and g++, C++14/17/20,
every documented macro, with and without assertions. A plain "does it compile" is deliberately the deciding step: the
type checker covers every member body, used by tests or not."""
N['C02'] = """
IR of all headers: no strong external definition, no undefined library symbol, no throw/catch/dynamic_cast/typeid; all pairs of
include orders combine."""
N['C03'] = """
Static assertions on copy/move of every owning type and instantiation of every container operation with move-only elements.
Left alone on purpose: SaveAndSet, StackLinked and InlineListNode are copyable today; whether they should be is a design choice."""
N['C04'] = """
Every shim inlined and followed from entry to return: one call to the like-named function, arguments in order, result returned,
weak linkage. `pow(float, float)` for powf is accepted as the same function (it resolves to it)."""
N['S01'] = """
Every combination of text length, destination size and limit up to small sizes, in blocks of exactly that size, plus
symbolic sizes without a bound for memory safety and termination."""
N['S02'] = """
Argument lists as typestate (live, used, ended), every formatter failure at every call, texts of up to four arbitrary characters, each
buffer size up to four and symbolic ones; the allocating forms must allocate exactly what they need; parsev included in P02."""
N['S03'] = """
libstdc++'s string and vector code is followed with every byte arbitrary, texts up to four characters, separators up to two
(the longest pair only in thorough), up to three pieces for Join."""
N['S04'] = """
As S03; case functions get only values they accept (a negative char is an alarm), prefix/suffix/compare for all pairs of lengths up to
three."""
N['P01'] = """
Any first parse of two or three arguments from a set holding every option kind, failures, stop, pass-through and extras;
reset; then the state equals a new parser's and a second parse equals a model of a new parser. vector<bool> values (RepeatOption<bool>)
are outside: libstdc++ itself reads indeterminate bits there."""
N['P02'] = """
An independent model over a *table* of argument shapes (28 shapes; it never re-parses text) is compared with the parser for every
vector of up to two arguments and of three from a smaller set, with each list configuration, inline values and slashes; result, all
option values, lists and the recorded error (as printed by usage) must agree. Single arguments of one to three arbitrary
characters cover memory safety. Static options, help, argc/argv, vector and variadic entry points have their own witnesses. The
form `-s=` under inline values is left unspecified (the code makes "=" the value)."""
N['P03'] = """
As P02 with the marker at every place of vectors of three (some of four) arguments, near-markers, and arbitrary bytes after the
marker; with pass-through off it is an unknown option or a value."""
N['P04'] = """
Arbitrary texts of up to three characters with an arbitrary earlier errno, a table of boundary texts for int, every spelling of
true/false with one character arbitrary, stored value after refusal."""
N['P05'] = """
What is printed is followed character by character for names and words of every length around the column limits (one
below, at, above each), with arbitrary characters; every form and every help word must appear once and in order."""
N['V04'] = """
The real libstdc++ vector and deque are followed with tokenised elements: all sizes up to three or four, every position, with
and without spare capacity, every predicate, for copyable and move-only elements."""
N['D01'] = """
Seconds and nanoseconds are symbols, the result a linear expression compared with s*10^9+n, overflow of every signed operation
checked. The stream and put_time are replaced by stand-ins (witness/tm) that write an arbitrary text; what put_time writes is the C library's."""
N['X01'] = """
The restyler is written against the library of clang 6, which is not installed (18 is, with another interface). It is compiled against
stand-ins (witness/rs) in which a location is an offset into one text, tokens are measured by a small lexer, and files may fail to open or
to be written. The rewriter is followed for every set of up to three disjoint edits on a text of arbitrary bytes; the rules for every
combination of indentation, line breaks, gaps, comments and bodies. Defects came out of it and were repaired, most of which lost
source text in place: `{` directly after a multi-line condition, `}` of an empty body on its own line, comments before a split brace, and
all initializers after the first that share a line."""
N['O01'] = """
Handles as typestate: opened at most once, closed exactly once, opening and lookup may fail, error text of up to three characters into
buffers of every small size."""
N['O02'] = """
Every outcome of stat/mkdir; a result the system did not fill in is undefined memory, so looking at it is an alarm."""
N['O03'] = """
Every text of up to three characters, each buffer size up to four, formatter failing or not, argument lists as typestate."""
N['O04'] = """
Each message of up to three characters, left in the C library or written to the buffer, buffers up to four bytes. Only the GNU
form of strerror_r exists on this platform; the XSI branch is not compiled here."""
TAIL = """
## False alarms met and what was done

- Scaled multiplication, C++11, powf, copyable guards: see B01, C01, C04, C03.
- strnlen was modelled as reading its full limit; it now stops at the terminator.
- "Returns the callee's result" was first demanded by object identity for class results; a copy is allowed (ReturnAndVoid).
- Pointer order of unrelated regions was split both ways with inconsistent answers; one layout is now assumed (see above).
- `-ra:b` with inline values: the model first read the colon as separator; the parser's reading (value `a:b`) is right.
"""

# second-generation units: payload shapes and sizes beyond the exhaustive bounds
SHAPES = """
`*_any.cpp` units repeat whole histories over a list of payload shapes (`witness/shapes.h`: scalars, bool, pointer,
enum, plain structures of 3 to 200 bytes, counted payloads of three layouts, move-only, copy-only and hand-counted
one-byte types), so that a path taken only for one kind or size of payload is analysed too."""
for _p in ('A01', 'V01', 'V03', 'V02', 'V04', 'H06', 'G01', 'Q01'):
    N[_p] = N[_p].rstrip() + SHAPES
LONG = {
    'H02': "`H02_density.cpp`: with arbitrary capacity and counters and an allocator that may fail, an insertion leaves a free slot, capacities only double or halve, never below the first.",
    'Q02': "`Q02_large.cpp`: queues of three hundred elements in rising, falling, scattered, repeating and interleaved order, followed element by element.",
    'S02': "`S02_long.cpp`: texts of 15 to 1500 characters into buffers that fit, cut or leave room.",
    'S03': "`S03_long.cpp`: up to ninety pieces, pieces of up to 300 characters and separators of up to 22, one byte arbitrary.",
    'S04': "`S04_long.cpp`: texts of 4 to 256 characters, with one arbitrary byte at the front, middle or end.",
    'O03': "`O03_long.cpp`: texts of 200 to 1500 characters into buffers that fit, cut or leave room.",
    'P02': "`P02_long.cpp`: command lines of over two hundred arguments by all ways of parsing, parsers of forty options, names and values of up to 130 characters.",
    'P03': "`P02_long.cpp` (part): seventy arguments after the marker.",
    'P04': "`w_long_*`: texts of up to 300 characters and numbers of up to seventy digits.",
    'O01': "`w_long*`: error texts of up to 600 characters into buffers that fit, cut or leave room.",
    'O04': "`w_long*`: error texts of up to 600 characters into buffers that fit, cut or leave room.",
    'L01': "`L01_large.cpp`: lists of 130 members, thinned forwards, backwards and from the middle, emptied and refilled.",
    'H06': "`H06_large.cpp`: 110 entries under well and badly spread hashes, thinned, refilled, erased while iterating, cleared.",
    'P05': "`w_many`, `w_many_words`: a dozen options of every kind and help of sixty words.",
}
for _p, _t in LONG.items():
    N[_p] = N[_p].rstrip() + '\nBeyond the exhaustive bounds, ' + _t
