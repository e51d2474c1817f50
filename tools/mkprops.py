#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

# ---------------------------------------------------------------- references
p("R01", "Reference-holding handles keep counts balanced, under any aliasing",
  "Constructing, copying, moving, converting, assigning, surrendering (take/forget) or destroying a reference-holding handle changes each target object's count by exactly the number of handles that gained or lost it, and leaves every handle designating the object it was given (a moved-from or surrendered handle designates nothing). This also holds when source and destination are the same handle, hold the same object, or when the source lives inside the object being let go. No operation touches an object after its last reference was dropped.",
  ["inputs", "histories"], "every handle operation, every null/same/different/nested aliasing of source and destination, every prior count",
  "The tests build a handful of non-aliasing RefPtrs; self-assignment, list-walking (p = p->next), conversion and last-reference cases are not sampled, and a wrong count is a silent leak or use-after-free.",
  ["amtl/am-refcounting.h", "amtl/am-raii.h"],
  [("RefPtr", "amtl/am-refcounting.h class RefPtr"), ("AlreadyRefed", "amtl/am-refcounting.h class AlreadyRefed"), ("ReturnAndVoid", "amtl/am-raii.h")])
p("R02", "Counted objects are destroyed exactly once, exactly at zero (single-threaded)",
  "For the non-atomic counted base classes, adding a reference raises the count by exactly one and releasing lowers it by exactly one; the object is destroyed exactly once and only by the release that brings the count from one to zero. A newly created object, including one made by copying a counted object, starts with no references, and assigning one counted object to another leaves both counts alone. Nothing in the object is accessed once it has been destroyed.",
  ["inputs", "histories"], "every count value and every sequence of add/release/copy on an object",
  "Tests only drop short-lived objects with counts of one or two through RefPtr; virtual variants and copies are untested.",
  ["amtl/am-refcounting.h"], [("Refcounted", "amtl/am-refcounting.h class Refcounted"), ("VirtualRefcounted", "amtl/am-refcounting.h class VirtualRefcounted")])
p("R03", "Thread-safe reference counts: one atomic step decides destruction",
  "For the thread-safe counted base classes, each add and each release is one indivisible atomic step of exactly one, and whether to destroy is decided from the outcome of that step alone. Under every interleaving the object is destroyed exactly once, by the release that dropped the last reference. A release that was not the last does not touch the object afterwards.",
  ["schedules"], "every interleaving of adds and releases from any number of threads",
  "No test races two threads on a count, and the virtual thread-safe variant is never instantiated; a test samples few schedules.",
  ["amtl/am-refcounting-threadsafe.h"], [("RefcountedThreadsafe", "amtl/am-refcounting-threadsafe.h"), ("VirtualRefcountedThreadsafe", "amtl/am-refcounting-threadsafe.h")])
p("R04", "Atomic reference slot: retain and replace under exclusive access only",
  "Reading an atomic reference slot retains the value while the slot is exclusively held, and replacing retains the new value before it becomes visible and drops the old one exactly once, after the slot is free again. Every path that takes the slot gives it back exactly once with an unmarked pointer, and the lock mark never reaches a caller. Taking the slot has acquire and giving it back has release ordering, and it is only ever accessed atomically.",
  ["schedules"], "every interleaving of readers and writers of one slot",
  "The tests use the slot from one thread; a lost retain, an early release or a missing unlock needs a particular interleaving to show.",
  ["amtl/am-refcounting-threadsafe.h"], [("AtomicRef::get / operator=", "amtl/am-refcounting-threadsafe.h"), ("lock/unlock", "amtl/am-refcounting-threadsafe.h")])

# ---------------------------------------------------------------- value holders
p("V01", "Optional values are constructed and destroyed exactly once",
  "An optional holds a live value exactly when it reports itself valid: initialising, copying, moving, assigning and destroying it construct and destroy values so that none is leaked, destroyed twice, or overwritten while alive. Assignment (including from itself, from an empty one, or over an existing value) leaves the destination equal to what the source was (the source not being stored inside the value it replaces), and copying never alters the source. A moved-from source ends up empty with its value destroyed.",
  ["inputs", "histories"], "every empty/full combination of source and destination, aliased or not, for every payload type",
  "Maybe has no test of its own; argparser only uses it with trivially destructible or short-lived values, where a leak is invisible.",
  ["amtl/am-maybe.h", "amtl/am-storagebuffer.h"], [("Maybe", "amtl/am-maybe.h class Maybe"), ("StorageBuffer", "amtl/am-storagebuffer.h")],
  [{"name": "initialized_", "meaning": "the storage holds a live value", "where": "amtl/am-maybe.h"}])
p("V02", "Function objects own exactly one callable, inline or heap",
  "A function object owns at most one callable: constructing, copying, moving, assigning, clearing and destroying it create and destroy the stored callables exactly once each, free exactly the heap storage they allocated, and never use storage that was released. Copies are independent and equal, a moved-from function is empty, self-assignment changes nothing (an assigned source is not itself stored inside the callable it replaces), and copying or assigning an empty function (const or not) yields an empty function. A callable whose holder fits the inline buffer is stored without heap allocation.",
  ["inputs", "histories"], "every empty/inline/heap state of source and destination, const or non-const, aliased or not",
  "Tests move and copy two functions once; they never self-assign, copy an empty or non-const function, or overwrite a heap callable with an inline one and back.",
  ["amtl/am-function.h"], [("Function", "amtl/am-function.h class Function"), ("FunctionHolder", "amtl/am-function.h")],
  [{"name": "impl_", "meaning": "owned callable, inside buffer_ or on the heap", "where": "amtl/am-function.h"}])
p("V03", "Calling a function object reaches the stored callable with its arguments",
  "Calling a non-empty function object invokes the callable it stores exactly once, with every argument in its original position and value category, and returns that callable's result unchanged. Calling has no other effect on the function object.",
  ["inputs"], "every argument value and every storage form (inline, heap)",
  "Tests call with single scalar arguments and small callables.",
  ["amtl/am-function.h"], [("operator()", "amtl/am-function.h"), ("FunctionHolder::invoke", "amtl/am-function.h")])

# ---------------------------------------------------------------- arrays, allocation
p("A01", "Fixed arrays construct and destroy every element exactly once",
  "A fixed array of n elements constructs each element exactly once before it can be read and destroys each exactly once before its memory is freed; copying copies element i to element i, moving transfers the whole buffer and leaves the source empty. Assignment, including self-assignment, loses neither the old elements nor their memory, and no access leaves the n elements.",
  ["inputs", "histories"], "every length, every aliasing of assignment operands, every element type",
  "FixedArray has no test at all.",
  ["amtl/am-fixedarray.h"], [("FixedArray", "amtl/am-fixedarray.h class FixedArray")])
p("A02", "Allocation sizes never wrap and allocation failure is survivable",
  "The containers never ask their allocator for fewer bytes than the elements they then store: a request whose byte size would wrap is reported as overflow and refused. When the allocator fails, the operation reports failure without touching the missing storage, a failed growth leaves the contents as they were, and the container can still be destroyed.",
  ["inputs", "fault_sequences"], "every requested length and every allocation failing at any point",
  "Tests use the aborting default allocator and small sizes; no allocation ever fails in them.",
  ["amtl/am-fixedarray.h", "amtl/am-hashtable.h", "amtl/am-allocator-policies.h"],
  [("FixedArray::allocate", "amtl/am-fixedarray.h"), ("HashTable::createTable/changeCapacity/init/grow", "amtl/am-hashtable.h")])
p("A03", "Container memory comes from and returns to the container's own policy",
  "Every block a fixed array or hash container obtains from its allocation policy is returned to that policy exactly once, at the latest on destruction, and nothing else is passed to it. The policy object given to a container at construction is the one it uses and the one its accessor returns, and it travels with the memory when the container is moved.",
  ["histories", "configurations"], "every sequence of construct/grow/shrink/move/assign/destroy with a stateful policy",
  "Tests only use the stateless default policy, for which a leaked or misrouted block is invisible.",
  ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h", "amtl/am-fixedarray.h"],
  [("AllocPolicy base", "amtl/am-hashtable.h"), ("allocPolicy()", "amtl/am-hashmap.h, amtl/am-hashset.h")])

# ---------------------------------------------------------------- hash containers
p("H01", "Hash entries hold a live payload exactly while they are in use",
  "A hash table slot holds a constructed payload exactly when it is in use: adding constructs it once, removing, clearing or destroying the table destroys it once, and growing or shrinking moves each stored payload exactly once into the new storage and destroys the original. No payload is ever overwritten, leaked, destroyed twice, or read from a free or removed slot.",
  ["inputs", "histories"], "every slot state and table size, every sequence of add/remove/rehash/clear/iterate",
  "The tests add two or three keys to a table of sixteen and never rehash, clear or destroy a mixed table.",
  ["amtl/am-hashtable.h"], [("HashTableEntry", "amtl/am-hashtable.h"), ("changeCapacity, clear, ~HashTable, removeEntry, add", "amtl/am-hashtable.h")])
p("H02", "Hash table bookkeeping is exact and always leaves a free slot",
  "The reported element count is always the number of keys stored, every removed slot is counted until it is reused or swept by a rehash, and after any operation at least one slot is free, so that every search ends. Growing doubles and shrinking halves the capacity, never below the initial capacity, and preserves the element count.",
  ["inputs", "histories"], "every combination of used/removed counts and capacity, every sequence of operations",
  "Counter drift needs long mixes of adds and removals to become visible (as a hang or a wrong size); tests do a handful.",
  ["amtl/am-hashtable.h"], [("internalAdd, removeEntry, checkDensity, grow, shrink, changeCapacity, clear", "amtl/am-hashtable.h")],
  [{"name": "nelements_, ndeleted_, capacity_", "meaning": "used, removed and total slots", "where": "amtl/am-hashtable.h"}])
p("H03", "Hash searches agree on the probe path and never stop short",
  "Searching, searching-for-insertion and rehash placement start from the same hash-derived slot and step through the table the same way; a search passes over removed slots and other keys and stops only at the matching key or a free slot. A key is reported found only when the slot is in use, its stored hash equals the key's and the policy's comparison accepted it, and an insertion goes to the first removed slot on the path or else the free slot that ended it. The hash stored for a key never equals a reserved marker.",
  ["inputs", "histories"], "every key, hash value and table content",
  "Tests sample two keys per table; collisions across removed slots were already the cause of one historic bug (6527).",
  ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"], [("lookup, lookupForAdd, insertUnique, computeHash, Probulator", "amtl/am-hashtable.h")])
p("H04", "Hash iteration yields exactly the stored entries",
  "Iterating a hash container visits each stored entry exactly once and nothing else, whatever the mix of free, used and removed slots, and reports the end exactly after the last one. Erasing the current entry through the iterator removes only that entry and does not disturb the rest of the iteration.",
  ["inputs", "histories"], "every table size and slot content",
  "The only iteration in the tests is over one or two entries.",
  ["amtl/am-hashtable.h"], [("HashTable::iterator", "amtl/am-hashtable.h")])

p("H05", "Hash functions are defined for every key and depend on nothing else",
  "Every supplied hash function is defined for every key: it performs no overflowing signed arithmetic and no undefined shift, and reads exactly the bytes of the key and none beside them. Equal keys hash equally wherever they are stored, and a character stream hashes like the whole text in however many pieces it is fed; integers and pointers are hashed by the function for their own size.",
  ["inputs"], "every key, length, address and split of a text",
  "The tests hash two short strings.",
  ["amtl/am-hashtable.h", "amtl/am-hashmap.h"], [("HashCharSequence, FastHashCharSequence, CharacterStreamHasher, HashInt32, HashInt64, HashInteger, HashPointer, HashCombine", "amtl/am-hashtable.h"), ("PointerPolicy", "amtl/am-hashmap.h")])
p("H06", "Hash maps and sets behave as a map and a set",
  "After any history of additions, removals and clearings a map finds exactly the keys that were added and not removed since, each with the value last stored for it, and a set exactly its members; adding a member again changes nothing, the element count is exact, and iterating (also while erasing) visits each entry once. A key or value passed by name is copied and left intact, the result of an insertion names the new entry, also after the table grew, and a moved map or set keeps its entries.",
  ["inputs", "histories"], "every history of operations and every choice of hashes",
  "The tests add and look up three keys of a map; sets are untested.",
  ["amtl/am-hashmap.h", "amtl/am-hashset.h"], [("HashMap", "amtl/am-hashmap.h"), ("HashSet", "amtl/am-hashset.h")])

# ---------------------------------------------------------------- lists, queue
p("L01", "Intrusive lists stay well linked and count their members",
  "Appending, removing and erasing keep the list a consistent doubly linked ring through its head: forward and backward order agree, only the affected neighbours change, and the reported length equals the number of members. An appended node becomes the last one, erase returns the following position, and a removed node is unlinked and reports that it is in no list, in every build configuration.",
  ["inputs", "histories", "configurations"], "every list length and position (only, first, middle, last member), debug and release builds",
  "The single test walks five nodes forwards in a debug build; backward links, length() and release builds are not observed.",
  ["amtl/am-inlinelist.h"], [("InlineList::append/remove/erase", "amtl/am-inlinelist.h"), ("InlineListNode", "amtl/am-inlinelist.h")])
p("Q01", "Priority queue operations never lose, duplicate or overrun elements",
  "Adding and popping only ever move elements between slots of the queue: at the end of every operation each slot holds exactly one live element, an added element is in the queue, and the popped element is the one that was at the top and is the only one gone. No slot outside the current elements is accessed, for any queue size and any comparison outcome.",
  ["inputs", "histories"], "every queue size and every outcome sequence of the priority comparison",
  "The test pops one short integer sequence; with integers a lost or duplicated moved-from slot can go unnoticed.",
  ["amtl/am-priority-queue.h"], [("add, emplace, pop, propagateUp, propagateDown", "amtl/am-priority-queue.h")])
p("Q02", "Priority queue pops in priority order",
  "Each pop returns an element to which no other queued element has strictly higher priority, for every history of adds and pops under any strict weak priority order.",
  ["inputs", "histories"], "every history of adds and pops",
  "One fixed sequence is tested.",
  ["amtl/am-priority-queue.h"], [("propagateUp, propagateDown", "amtl/am-priority-queue.h")])

# ---------------------------------------------------------------- strings
p("S01", "Bounded string copies never overrun and always terminate",
  "The bounded copy and append functions write only inside the destination's stated size, read the source no further than its terminator (or the given limit), and leave the destination terminated whenever it has room for at least one byte. What they store is the longest prefix of the source that fits, and the returned value is the length of the resulting string.",
  ["inputs"], "every source length, destination size, prior content and limit, including zero",
  "Tests use one six-byte buffer and four strings.",
  ["amtl/am-string.h"], [("SafeStrcpy, SafeStrcpyN, SafeStrcat", "amtl/am-string.h")])
p("S02", "Formatted output is bounded, terminated and correctly sized",
  "Bounded formatting never writes past the given size, always terminates a non-empty buffer and returns the length of the text stored; formatting failure yields an empty result rather than garbage. Allocating formatting returns a buffer large enough for the whole text and its terminator. Every argument list that is started or copied is ended exactly once on every path and never used twice without a copy.",
  ["inputs"], "every formatted length relative to the buffer, every failure return of the C formatter",
  "Tests format a few short strings; truncation boundaries and formatter errors are not sampled.",
  ["amtl/am-string.h", "amtl/os/am-path.h"], [("SprintfArgsImpl, SafeVsprintf, SafeSprintf, StringPrintfVa", "amtl/am-string.h"), ("path::FormatVa", "amtl/os/am-path.h")])
p("S03", "Split and Join invert each other",
  "Splitting a text on a non-empty separator cuts it at every leftmost separator: no piece contains the separator, pieces and separators together are the whole text, an empty text has no pieces, and joining the pieces with the same separator reproduces the text. Joining writes exactly the pieces in order with the separator between them, whatever characters they hold.",
  ["inputs"], "every text and separator", "A few literals are tested.",
  ["amtl/am-string.h"], [("Split, Join", "amtl/am-string.h")])
p("S04", "Case conversion, prefix and suffix tests are exact for every text",
  "Case conversion keeps the length and changes exactly the letters of the other case, and the C character functions only ever receive values they are defined for. A text starts (ends) with another exactly when its first (last) characters are that text, including empty and longer ones, and two texts compare equal ignoring case exactly when they differ in nothing but case. No byte beyond either text is read.",
  ["inputs"], "every text, with every character value, and every relative length", "A handful of ASCII literals are tested; no character above 127, no embedded or missing terminator.",
  ["amtl/am-string.h"], [("Uppercase, Lowercase, StartsWith, EndsWith, StrCaseCmp", "amtl/am-string.h")])

# ---------------------------------------------------------------- arithmetic
p("B01", "Overflow-checked arithmetic is exact over the whole input range",
  "The add-overflow predicates and checked additions report safety exactly when the mathematical sum fits in the type, and the multiply predicates and checked multiplication report safety exactly when the product fits, for every pair of inputs. A checked operation that succeeds stores the exact result, and one that fails stores nothing.",
  ["inputs"], "all pairs of 32-bit and 64-bit operands",
  "Two multiply cases are tested; the input space is 2^64 or 2^128 pairs.",
  ["amtl/am-bits.h", "amtl/am-arithmetic.h"], [("IsUintAddSafe, IsUintMultiplySafe", "amtl/am-bits.h"), ("TryUint32Add, TryUint64Add, TryUint64Multiply", "amtl/am-arithmetic.h")])
p("B02", "Flag and enum operators are exact set algebra on the bits",
  "For flag sets and flag enums, union (+, |), difference (-), intersection (&), symmetric difference (^) and complement (~) act on every bit exactly as the set operation of that name, and the assigning forms store that same result. Equality, inequality, truth and negation agree with the bits, for every underlying integer type, signed or unsigned, narrow or wide.",
  ["inputs", "configurations"], "all bit patterns of every underlying type",
  "One 32-bit unsigned enum with four flags is tested.",
  ["amtl/am-flags.h", "amtl/am-enum.h"], [("Flags operators", "amtl/am-flags.h"), ("KE_DEFINE_ENUM_OPERATORS", "amtl/am-enum.h")])
p("B03", "Floating-point classification is exact for float and double",
  "The infinity test is true for exactly the two infinities and false for every finite value and every NaN, and the NaN test is true for exactly the NaNs, for both float and double.",
  ["inputs"], "all 2^32 float and 2^64 double bit patterns",
  "am-float.h has no test.",
  ["amtl/am-float.h"], [("IsInfinite, IsNaN, float_bits", "amtl/am-float.h")])
p("B04", "Pointer tagging and alignment helpers touch only the bits they name",
  "Setting, getting and clearing pointer tag bits changes or reveals exactly the named low bits and preserves all others; aligning an address down clears exactly the low bits of the alignment, aligning a count up gives the least multiple of the alignment not below it, the alignment test is true exactly when they are all zero, and the power-of-two test is true exactly for values with one bit set.",
  ["inputs"], "all addresses, all tag widths in use and all power-of-two alignments",
  "One stack address is tested with two tag bits.",
  ["amtl/am-bits.h"], [("SetPointerBits, GetPointerBits, ClearPointerBits, AlignedBase, IsAligned, IsPowerOfTwo", "amtl/am-bits.h")])
p("B05", "Bit scans use every bit of their operand",
  "The highest-set-bit and lowest-set-bit functions and the base-2 logarithm examine the whole operand at its own width, without discarding high bits, and return the true index for every non-zero value.",
  ["inputs"], "all non-zero 32-bit and 64-bit values", "A dozen constants are tested; Log2 is not tested at all.",
  ["amtl/am-bits.h"], [("Log2, FindLeftmostBit32, FindLeftmostBit64, FindRightmostBit", "amtl/am-bits.h")])

# ---------------------------------------------------------------- threads
p("T01", "Thread-local slots are created once and never used before they exist",
  "However many threads first touch a thread-local variable at once, its system key is created exactly once, no thread reads or writes through the key before its creation has completed, and a failed creation is reported to every caller and never followed by use or deletion of the key. Reading an untouched variable yields the default value, and destruction deletes the key exactly when it was created.",
  ["schedules", "fault_sequences"], "every interleaving of first uses, and key creation failing",
  "The test initialises the variable from the main thread before starting another one, so the race window is never entered.",
  ["amtl/am-threadlocal.h"], [("ThreadLocal::get/set/allocate", "amtl/am-threadlocal.h")])
p("T02", "Mutex ownership tracking follows every way of locking",
  "In debug builds the mutex records the current thread as owner on every successful acquisition, whichever locking call made it, clears the record before it is released, and changes it only while the mutex is held; the ownership assertion passes exactly for the recorded owner. Each lock and unlock acquires and releases the underlying mutex exactly once in every configuration.",
  ["schedules", "configurations"], "every locking call (lock, try_lock, unlock) and outcome, debug and release",
  "am-mutex.h has no test.",
  ["amtl/am-mutex.h"], [("Mutex", "amtl/am-mutex.h")])
p("T03", "Started threads are named first and run their callback exactly once",
  "A thread started through the library sets its own name and then invokes the given callable exactly once with the given arguments, and does nothing else; the name string is owned by the new thread and does not refer to the caller's storage.",
  ["schedules"], "every interleaving of creator and created thread",
  "The helper is used once in one test with immediately joined threads.",
  ["amtl/am-thread.h"], [("NewThread, SetThreadName", "amtl/am-thread.h")])

# ---------------------------------------------------------------- RAII, utilities
p("G01", "Scope guards act exactly once, at scope exit",
  "A scope guard runs its callback exactly once when it goes out of scope unless it was cancelled or moved from, and moving a guard transfers that duty together with its cancelled state. A save-and-set guard installs the new value immediately and restores the old one at exit, a stack link pushes itself on entry and restores the previous link at exit, and take-and-clear helpers return the old value and leave the default.",
  ["histories"], "every cancel/move/exit history",
  "Tests cover one invoke and one cancel; moved guards, SaveAndSet and StackLinked are untested.",
  ["amtl/am-raii.h"], [("ScopeGuard, SaveAndSet, StackLinked, ReturnAndVoid", "amtl/am-raii.h")])
p("C01", "Every public member is usable in every documented configuration",
  "Each header can be included first and alone, and every public member of every class and function template in it can be instantiated and called for ordinary argument types, under every supported language standard (C++14 and later), with and without assertions, and with each documented configuration macro (single-threaded, standard-library traits).",
  ["programs", "configurations"], "all headers, all public members, all documented configurations",
  "Templates are only checked when a test instantiates the particular member; most members of Maybe, FixedArray, RefPtr and the configuration macros never are.",
  ["amtl"], [("all headers", "amtl/*.h, amtl/os/*.h, amtl/experimental/*.h")])
p("C02", "Headers need no linkage, exceptions or run-time type information",
  "Any number of translation units may include any set of the headers and be linked together without duplicate or missing symbols (the experimental argument parser's one static registry excepted), and the library compiles with exceptions and run-time type information disabled, using neither.",
  ["programs", "configurations"], "all header combinations and translation-unit counts",
  "The tests link one binary; many headers are included by at most one test file, so a stray non-inline definition goes unnoticed.",
  ["amtl"], [("inline/static/template definitions", "amtl/*.h")])
p("C03", "Forbidden copies do not compile; permitted moves do",
  "Types that own or guard a unique resource (hash containers and tables, priority queues, atomic reference slots, thread-local variables, scope guards, mutexes and locks, shared libraries, inline lists) reject copying and copy assignment at compile time, while the types documented as movable can be moved, and element helpers and containers accept move-only element types wherever they only need to move.",
  ["programs"], "every program that copies or moves these types",
  "A test cannot check that a program fails to compile.",
  ["amtl"], [("deleted special members", "amtl/am-hashtable.h, am-priority-queue.h, am-refcounting-threadsafe.h, am-threadlocal.h, am-raii.h")])
p("C04", "Compatibility shims forward to the function they stand in for",
  "Each compatibility symbol for a finite-math library function calls exactly the ordinary function of the same name and precision with the same arguments in the same order and returns its result unchanged, and is weak so that a real definition wins.",
  ["inputs"], "every shim and argument", "compat/ has no test.",
  ["compat/stdcxx.cpp"], [("__*_finite shims", "compat/stdcxx.cpp")])

# ---------------------------------------------------------------- argument parser
p("P01", "Resetting a parser forgets everything the previous parse left behind",
  "After a reset, parsing gives the same result, option values, collected and pass-through arguments and error state as the same parse on a freshly configured parser: every piece of state a parse can change is restored, for every option kind, while configuration and registered options are kept.",
  ["histories"], "every earlier command line",
  "No test parses twice with pass-through or extra arguments, or after a failure.",
  ["amtl/experimental/am-argparser.h"], [("Parser::reset, IOption::reset", "amtl/experimental/am-argparser.h")])
p("P02", "Argument parsing never crashes and never swallows a bad argument",
  "For every argument vector, parsing only dereferences options that were found and only reads inside the given arguments; on a new or reset parser it fails exactly when an error was recorded or help was requested. Each argument is matched only to the option whose whole name it spells and is given the value in the same argument or the next one; positional arguments are filled in order. An option that rejects its value is either reported or applied without it, never silently ignored, and an unknown, repeated or incomplete one is reported.",
  ["inputs"], "every argument vector and option set",
  "About ten command lines are tested; unknown negated options and rejected optional values are not.",
  ["amtl/experimental/am-argparser.h"], [("Parser::parse_impl, find_*", "amtl/experimental/am-argparser.h")])
p("P03", "Everything after the pass-through marker reaches the pass-through list",
  "With pass-through enabled, the first bare double dash ends option processing and every later argument, whatever it looks like, is appended to the pass-through list in order and interpreted as nothing else (a double dash that an option takes as its value is not bare, and nothing is processed after a stop option); without it enabled a bare double dash is an ordinary argument.",
  ["inputs"], "every argument vector", "One two-argument case is tested.",
  ["amtl/experimental/am-argparser.h"], [("Parser::parse_impl", "amtl/experimental/am-argparser.h")])
p("P04", "Option values convert exactly or are rejected",
  "An integer option accepts an argument exactly when all of it is a decimal integer (with leading blanks and a sign as the C library reads them) representable in its type and then stores that value; a boolean accepts exactly true/false (any case) or a missing value; a string accepts any non-empty text. A rejected argument leaves the option's stored value unchanged.",
  ["inputs"], "every argument text", "Two valid integers are tested.",
  ["amtl/experimental/am-argparser.h"], [("ValuePolicy, Option::consumeValue", "amtl/experimental/am-argparser.h")])
p("P05", "Usage text shows every option with its whole help, within the columns",
  "The usage text is written only to the given stream. It holds the about text, the usage line, then every positional, every option with all its forms, and every extra usage line exactly once in that order, each with every word of its help text once, whole and in order; no line exceeds 80 columns when no name or word alone forces it. After a failed parse only the usage line and the recorded error are printed, unless the parser has help and it was asked for. No text length or layout makes it read or write outside its buffers.",
  ["inputs"], "every set of options, name length and help text",
  "Usage output is never tested.",
  ["amtl/experimental/am-argparser.h"], [("Parser::usage, usage_line, add_usage_line", "amtl/experimental/am-argparser.h")])

# ---------------------------------------------------------------- OS
p("V04", "Vector and deque helpers move exactly the element they name",
  "Extending by moving appends all elements of the source in order and leaves it empty; popping returns the last or first element and removes only it; removing or inserting at a position affects only that position and keeps the order of all others, also when the inserted item is an element of the same vector; conditional erasure removes exactly the elements the predicate accepts. No element is lost, duplicated or used after it was moved from, and an item passed as const is left intact.",
  ["inputs"], "every size, capacity, position and predicate",
  "The tests extend and pop a few fixed vectors.",
  ["amtl/am-vector.h", "amtl/am-deque.h"], [("MoveExtend, PopBack, RemoveAt, InsertAt, EmplaceAt, EraseIf", "amtl/am-vector.h"), ("PopBack, PopFront", "amtl/am-deque.h")])
p("D01", "Time conversions preserve the instant and formatting is complete",
  "Converting a system timestamp to a duration yields exactly its seconds and nanoseconds, before and after the epoch, and converting it to a time point yields that instant to within the resolution of the clock; an epoch value becomes the time point with that many ticks. All of them are usable in constant expressions. Formatting a time returns all of what the standard formatter writes for that time and format, whatever its length.",
  ["inputs"], "every timestamp and every formatted text", "One timestamp is converted in the tests; formatting is untested.",
  ["amtl/am-time.h"], [("TimespecToDuration, TimespecToTimePoint, EpochValueToTimePoint, FormatTime", "amtl/am-time.h")])
p("X01", "Restyling a source file loses none of it",
  "The restyler's text rewriter emits the original text with every registered edit applied exactly once and everything outside the edited ranges unchanged, for any set of edits that do not overlap, in whatever order they were registered, an edit of an empty range taking nothing away. Its rules change only white space (and where a comma stands between two constructor initializers): no token and no comment is lost, a brace is split off exactly when the documented style asks for it and is then indented as the construct it belongs to, and visiting a declaration twice changes nothing more. A file that cannot be read, parsed or completely written back is reported, and an unparsable file is left alone.",
  ["inputs", "fault_sequences"], "every set of edits on every text, every shape of the rewritten constructs, every failing write",
  "The restyler is not built or run by the test suite.",
  ["tools/restyler/amstyler.cpp", "tools/restyler/README.md"], [("TextRewriter, MyASTVisitor, ToolMain::RunForPath", "tools/restyler/amstyler.cpp")])
p("O01", "Shared libraries are opened once, closed once, and failures reported",
  "A shared library object closes the handle it holds exactly once, on destruction, and never closes a missing one. Opening returns a counted, valid library or null; on failure the error text is stored, bounded and terminated, exactly when a buffer was provided, and nothing leaks.",
  ["inputs", "fault_sequences"], "open succeeding or failing, with or without an error buffer",
  "One test opens one existing and one missing library.",
  ["amtl/os/am-shared-library.h"], [("SharedLib", "amtl/os/am-shared-library.h")])
p("O02", "File queries report failure as false and never trust unfilled results",
  "Path, file and directory queries return true exactly when the system query succeeded (and the entry is of that kind), never inspect a result the system did not fill in, and creating a directory reports success exactly when the system did; each passes on the caller's path and mode unchanged and makes exactly one system call.",
  ["inputs", "fault_sequences"], "every system-call outcome and file type",
  "am-fsutil.h has no test.",
  ["amtl/os/am-fsutil-posix.h"], [("PathExists, IsFile, IsDirectory, CreateDirectory", "amtl/os/am-fsutil-posix.h")])
p("O03", "Path formatting normalises separators within the formatted text only",
  "Formatted paths contain no foreign separator: every one of them in the produced text, and nothing else, is replaced by the native separator, the length is the formatter's, and no byte beyond the text is read or written.",
  ["inputs"], "every formatted text and buffer size", "Three literals are tested.",
  ["amtl/os/am-path.h"], [("path::FormatVa, path::Format", "amtl/os/am-path.h")])
p("O04", "System error text always ends up in the caller's buffer, bounded",
  "Formatting a system error leaves the message in the caller's buffer, truncated to its size and terminated, whether or not the C library wrote it there itself, and never writes past the given size.",
  ["inputs", "configurations"], "every error code, buffer size and C-library behaviour",
  "am-system-errors.h has no test.",
  ["amtl/os/am-system-errors.h"], [("FormatSystemErrorCode, FormatSystemError", "amtl/os/am-system-errors.h")])

# ---------------------------------------------------------------- declined
p("N02", "Hash functions spread keys uniformly and floating modulo is exact",
  "The supplied hash functions distribute realistic keys evenly, and floating modulo returns the exact IEEE remainder.",
  ["inputs"], "every key and operand pair", "No distribution or numeric test exists.", ["amtl/am-hashtable.h", "amtl/am-float.h"], [("HashCharSequence, HashInt32, HashInt64, FloatModulo", "amtl/am-hashtable.h, amtl/am-float.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
