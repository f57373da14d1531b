"""Levels, techniques, assumptions and the reasons for properties that are not claimed."""
TRUST = ['cbmc 6.11 / goto-cc / goto-instrument (C front end, symbolic execution, MiniSat 2.2, CaDiCaL where flagged)',
         'check.py: obligation list, loop contract injection, classification',
         'harness/*.c: preconditions, specification functions, stubs listed as assumptions',
         'gcc + ASan/UBSan for native replay of counterexamples (replay only, never for acceptance)']
ASSUME = ['machine model: LP64 little endian, IEEE-754 round to nearest; machine arithmetic is bit-precise, never mathematical',
          'allocation does not fail (the library itself dereferences allocation results unchecked); malloc returns distinct objects with arbitrary contents',
          'libc functions outside /repo behave as in the CBMC library model or as in the stub named in the obligation',
          'unsequenced/strict-aliasing effects of the compiler are outside the model']
# id -> (level, technique, note)
P = {}
NA = {
 'J03': 'harness/data_json.c compares decoded and encoded documents over contracts of the value functions (bounded, number formatting by stub), but its whole run was not validated in the time available; only the tokenizer (J02) and the escaping (J01) are claimed',
 'X01': 'yxml is a third-party table driven state machine of 1000 generated lines; its invariant (stack buffer shape per state) was not brought within reach of the loop contracts in the time available',
 'Y01': 'decided by libyaml, an external library without source here: a contract for it would assume the property',
}
EXTRA_ASSUME = {}

def claim(pid, level, technique, note, assume=()):
    P[pid] = (level, technique, note)
    EXTRA_ASSUME[pid] = list(assume)

claim('H01', 'proof', 'CBMC function contracts with inductive loop contracts on hash.c',
      'Unbounded: loop contract over a ghost accumulator for every length; content of the bytes fully symbolic.')
claim('B01', 'other', 'CBMC loop contracts (bounds, sizes, tables: unbounded) plus bounded exact round trip on base64.c',
      'Memory safety, size functions and table inverse are proved for all lengths; exact text equality is decided for all byte strings and texts up to the stated length (bounded).')
claim('D02', 'other', 'CBMC: per-function specification proved for all scalar pairs, total-order lemma on the specification, bounded composites',
      'Scalars: every pair of types and all values proved against the ordering specification, and the specification proved a total order. Strings, arrays and composites bounded by the sizes stated in the evidence.')
claim('D03', 'other', 'CBMC: postcondition of the conversion proved for all values of every source and target type',
      'iot_data_cast, transform and map lookups are decided for all inputs (loop free); array conversion is bounded to 2 elements.')
claim('D12', 'other', 'CBMC: postconditions proved for all values of every type',
      'All types and all values; type name recognition of arbitrary text bounded to 8 characters.')

TYPED = ('objects of fixed size blocks are allocated with the type of the first access (typed calloc), iterator variants of iot_data_iter_t lie side by side, '
         'iot_data_static_t is an array of one iot_data_value_base_t: layout choices of the harness headers that keep sizes and do not change the code of the functions')
LIGHT = 'obligations marked light assume that no pointer dereference is invalid; sibling obligations with all pointer checks cover the same functions on smaller shapes'
claim('D05', 'other', 'CBMC: contracts of the list primitives proved for arbitrary neighbourhoods, operations against the sequence specification on enumerated shapes',
      'push/pop/insert/remove contracts are unbounded (window of the list around the operation); histories and iteration are decided for all values on every shape up to the stated length.', [TYPED, LIGHT])
claim('D06', 'other', 'CBMC: postconditions of vector operations, size and iteration unbounded, operations on enumerated shapes',
      'Shapes (which slots are set) are enumerated up to the stated size; contents arbitrary.', [TYPED, LIGHT])
claim('D07', 'other', 'CBMC: operations of the map checked against a dictionary specification on enumerated trees',
      'Key orders are enumerated (all orders of up to 3 keys and every operation in every gap, plus 32 longer histories); values arbitrary.', [TYPED, LIGHT])

claim('D01', 'other', 'CBMC: hash and equality postconditions, proved for all scalar values, on enumerated shapes for containers',
      'Scalars: every value and every way to obtain it. Containers: every operation from every enumerated shape ends equal, and with an equal hash, to a freshly built container; independent contents (hash collisions included) compare equal exactly when they are the same.', [TYPED, LIGHT])
claim('D04', 'other', 'CBMC: ghost count of live allocations, reference count contracts, pointer validity on every access; interference at the atomic decrement',
      'Reference counts arbitrary; kinds, shapes and histories enumerated. Concurrent release is decided at its single atomic step (other holders may release the value at any later moment).', [TYPED, LIGHT])
claim('D08', 'other', 'CBMC: postconditions of copy for all scalar values (proved) and for one value of each kind', 'Containers bounded to 3 elements and 2 levels.', [TYPED])
claim('D09', 'other', 'CBMC: relational postcondition of path operations on enumerated documents and paths', 'Documents of up to 3 levels, all their paths and paths that do not match; numbers arbitrary.', [TYPED, LIGHT])
claim('D10', 'other', 'CBMC: contracts of array access, iteration and buffer hand-over proved for arbitrary length and content; construction for enumerated lengths', 'Iteration, access and taking are unbounded.', [TYPED])
claim('D11', 'other', 'CBMC: storage selection proved for text of arbitrary length over contracts of the libc text functions; contents for every length up to 55', 'libc strlen/strcpy/strdup/vsnprintf/sscanf by contract.', [TYPED, 'strlen, strcpy, strdup, vsnprintf, vsprintf and sscanf behave as their stubs in harness/string.c and string_any.c state'])

claim('D13', 'other', 'CBMC: the block allocator of the release (NDEBUG) build against a ghost mutex and free list', 'Lock discipline with the list replaced arbitrarily outside the lock; refilling is exhaustive (one concrete chunk); histories of 5 operations.', [TYPED])

claim('J01', 'other', 'CBMC: escaping proved for text of any length (loop contracts: no overrun, accounting, appended length), output text exact for every character and for enumerated sequences', 'Safety and accounting are unbounded; the escaped text itself is compared for every single byte and for sequences of appends.')
claim('J02', 'other', 'CBMC: loop contracts on the tokenizer for text and token arrays of any size, plus exact tokens on enumerated texts', 'Unbounded: memory safety, termination, well placed and linked tokens, closed containers. Bounded: the exact token list and refusals on all texts of up to 3 of 13 pieces or 5 brackets.')

MON = 'pthread mutexes and conditions behave as their ghost model (mutual exclusion, spurious wakeups allowed, signal wakes one waiter, broadcast all)'
claim('Q01', 'proof', 'CBMC: monitor invariants over a ghost mutex and ghost waiters, loop contracts on the waiting loops, sequential histories', 'Lost wakeups, bounds and locking are proved for any number of threads and any queue length; element order by histories of 6 operations (bounded).', [MON])
claim('K01', 'proof', 'CBMC: postconditions of the state transitions and monitor invariant over ghost waiters, loop contract on the waiting loop', 'All states, any number of waiters and any mask; reference count under interference at each atomic operation.', [MON])
claim('T01', 'proof', 'CBMC: monitor invariants over ghost workers and waiters, loop contracts on the worker and waiting loops, exact order of added jobs', 'Lost wakeups, limits, counters, exactly-once running proved for any number of threads and jobs; the place of an added job for queues of up to 3 (bounded).', [MON, 'component functions by the contracts proved for K01; priorities are -1 (none) or not negative'])

claim('S01', 'other', 'CBMC: contract of the scheduler loop from arbitrary states of the schedules, monitor invariant for the timed wait, set membership postconditions of every operation', 'All times, periods, delays, repeat counts and states; up to 3 schedules, one iteration of the scheduler loop from an arbitrary reachable state (inductive) and every API operation from an arbitrary state.', [MON, 'the maps of schedules behave as ordered maps by their contract (D07); thread pool and component functions by theirs (T01, K01)'])
claim('L01', 'other', 'CBMC: postconditions of delivery, level and output functions over component contracts', 'Levels, message lengths and addresses arbitrary; chains of up to 4 loggers and histories of 5 operations (bounded).', ['vsnprintf, snprintf, fprintf, sendto, inet_aton and fopen behave as their stubs in harness/logger.c state; component functions by the contracts of K01'])

claim('M01', 'proof', 'CBMC: postconditions of the time functions under interference at every atomic operation, exact unit conversion and sleeping for all values (cvc5 over integers)', 'Any clock, any number of other threads, any interval; the retry loops are cut where their state is again arbitrary.', ['clock_gettime returns a time before 2106 with nanoseconds below 10^9; nanosleep sleeps the time or returns the rest; timestamps stay below 2^62'])
claim('U01', 'proof', 'CBMC: postconditions of generation under a ghost mutex, of printing and of the text check, for all values', 'Every generator state, all 16 byte identifiers, texts of any length.', ['getrandom fills what it says it fills and its bytes are random; isxdigit accepts -128..255 as in glibc'])
claim('G01', 'other', 'CBMC: loop contract on the substitution loop for text, names and values of any length, exact result on enumerated texts', 'Memory safety, progress, leaks and the order of what is copied are unbounded; the exact text is compared for every sequence of up to 3 pieces and names around the length limit.', ['getenv, strlen, strchr, strncpy and memcpy by contract in the unbounded obligation; results shorter than 2^42 bytes'])
claim('F01', 'other', 'CBMC: postconditions of writing and reading over a ghost file system whose every step may fail, contents and paths of any length', 'Writing and reading: proved for any content, path length, previous state and failure at each step. Names and listings: enumerated.', ['stdio and directory functions as the ghost file system in harness/file.c: rename is atomic, a file whose write and close succeeded has its content'])
claim('C01', 'other', 'CBMC: postcondition of buffer growth (proved), of each value, element, text and container head against the standard item encoding; enumerated nested documents', 'Values, lengths, element counts and buffer sizes arbitrary with up to 8 bytes filled; nesting by enumeration. Negative integers are a known finding (pinned by a stable test).', ['value accessors and iterators behave as their contracts (D05-D12)', 'text and binary contents move by one memcpy of the recorded length (ghosted for arbitrary lengths)'])
claim('N01', 'other', 'CBMC: postconditions of loading, lookup, start, stop, deletion and release over contracts of lists, maps and configuration text, with components that look up what they refer to while being configured', 'All reference graphs of 3 components, strict or tolerant of a missing reference (the last two alike); all combinations of missing, unknown, library and malformed entries; callbacks and lateness enumerated. Sequential use.', ['lists, maps, JSON and substitution behave as their contracts (D05, D07, J03, G01)', 'a component configuration function only looks up other components; dlopen and dlsym give what was asked for'])

LEVELS = {k: v[0] for k, v in P.items()}
