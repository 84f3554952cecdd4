"""Single table of the properties; tools/mkmeta.py writes properties.jsonl and
MANIFEST.json from it."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None,
         note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, technique=technique, note=note,
                  na=na, state=state))


AI = ("abstract interpretation of the LLVM IR (relational integer domain, symbolic "
      "region memory, loop summarisation)")
SH = ("shape analysis (red-black tree zipper domain) by abstract interpretation of the LLVM IR")
FX = "interprocedural effect / who-may-call analysis over LLVM IR"

prop("C01", "Intrusive containers, codecs, hashes and option parser never use the heap",
     "The linked lists, the red-black tree, the hex and Base64 codecs, the CRC32 and FNV-1a hashes and the "
     "command line parser never allocate, reallocate or release heap memory, on any path. They only touch memory "
     "handed to them by the caller, so the caller alone owns nodes and buffers.",
     ["inputs", "histories"], "every operation of these modules, every input, every path",
     "Tests run a few calls and do not observe the allocator; the claim is about every path, including error paths.",
     ["data/list.h", "data/rbtree.c", "encode/hex.c", "encode/base64.c", "hash/crc32.c", "hash/fnv1a.c", "misc/cmdline.c"],
     [("no allocator call is reachable from any operation", "call graph of the listed files")], technique=FX)

prop("C02", "No hidden shared state: operations on distinct objects are independent",
     "No module keeps mutable state outside the objects passed to it: the result and the effects of a call depend "
     "only on its arguments and what they point to. Hence calls on distinct objects never influence each other, "
     "whether interleaved in one thread or made concurrently from several.",
     ["schedules", "histories"], "all interleavings of calls on distinct objects",
     "Tests are single threaded and use one object at a time; interference needs a particular interleaving.",
     ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c",
      "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"],
     [("no function writes a global or static object, and no constant table is handed out as writable", "all translation units")],
     technique=FX)

prop("C03", "Query operations never modify the container they inspect",
     "Lookups, getters, size and emptiness tests, iteration and walking operations leave the inspected container "
     "(buffer, stack, array, list, tree, hash table, value, stream size) unchanged. A walk may write only into the "
     "cursor or output array supplied by the caller and never into the nodes it visits.",
     ["inputs", "histories"], "every query operation, every container content",
     "A query that reorders or caches inside the container usually returns the right answer in a short test.",
     ["data/buffer.h", "data/list.h", "data/rbtree.c", "data/htable.c", "data/value.c"],
     [("query functions store only to locals and to caller-supplied output", "query functions of the data modules")], technique=FX)

prop("C04", "Every module is self-contained",
     "Each module is one source file with one header (or a header alone) that depends on nothing but system headers "
     "and the standard C library, so taking just these files is enough. Every header can be included alone, and more "
     "than once, in C and in C++ programs.",
     ["programs", "configurations"], "every program that picks any one module",
     "The test build compiles each module with the whole tree on disk and only from C, after other headers.",
     ["data", "encode", "hash", "mem", "misc"],
     [("include graph and undefined symbols of every object", "all modules")],
     technique="include-graph and symbol-dependency analysis, header compile witnesses (C and C++)")

prop("C05", "Allocation failure is reported and leaves the object intact",
     "When a heap allocation fails inside a buffer, stack, array, chunk allocator, hash table or value operation, the "
     "operation reports failure to its caller instead of touching unallocated memory or claiming success. The object it worked on "
     "keeps its previous content and stays usable and releasable; only operations documented as best-effort shrinking ignore the failure.",
     ["fault_sequences", "inputs"], "every allocation site failing, alone or in combination, on every path",
     "No test injects an allocation failure.",
     ["data/buffer.c", "data/htable.c", "data/value.c", "mem/memchunk.c", "win32/memstream.c"],
     [("checks of malloc/realloc results before use and before state is changed", "all allocation sites")],
     technique=AI + " with every allocation forked into success and failure")

prop("C06", "Ownership: nothing leaks, nothing is freed twice or used after free",
     "Every heap block a module allocates is, at each return, either still reachable from the object that owns it or has been "
     "released exactly once; replacing, removing, shrinking, cleaning and finalizing release exactly the blocks that become unreachable. No operation "
     "reads, writes or frees a block after it has been released, and only blocks obtained from the allocator are released.",
     ["histories", "fault_sequences"], "every operation on every reachable object state, including failing allocations",
     "Tests do not run under a leak checker and cover a handful of histories without failures.",
     ["data/buffer.c", "data/htable.c", "data/value.c", "mem/memchunk.c", "mem/malloca.h", "win32/memstream.c"],
     [("free/realloc discipline", "all allocation and release sites")],
     technique="ownership/typestate tracking of heap regions in " + AI)

prop("C07", "Buffer operations stay within the allocated block for every size",
     "For every buffer state, offset and byte count (including zero, counts close to the maximum of the size type and ranges reaching "
     "beyond the end for removal) the buffer, stack and array operations read and write only within the allocated block and within the caller's "
     "data. The size never exceeds the capacity, and a request whose size cannot be represented fails cleanly.",
     ["inputs", "histories"], "all sizes, capacities, offsets and counts",
     "Tests use sizes up to a few hundred bytes; overflow and boundary combinations are never reached.",
     ["data/buffer.c", "data/buffer.h"],
     [("capacity checks and reservation before writing", "data/buffer.c")],
     state=[dict(name="size <= capacity", meaning="representation invariant", where="data/buffer.h")], technique=AI)

prop("C08", "Buffer insert, append, remove, resize keep exactly the right bytes",
     "After inserting N bytes at an offset the content is the old bytes before the offset, the N new bytes, then the old bytes from the "
     "offset on; after removing a range it is the old content without that range; truncation keeps a prefix, and any other reallocation, reserve, shrink, swap or "
     "acquire preserves every byte and the size. This holds for all sizes and whether or not memory had to be reallocated.",
     ["inputs", "histories"], "all contents, sizes, offsets, counts, capacities",
     "Tests compare short fixed byte strings; wrong source/destination arithmetic that shows only for some capacities or overlaps is missed.",
     ["data/buffer.c", "data/buffer.h"],
     [("memmove/memcpy/realloc arithmetic", "data/buffer.c")], technique=AI + ", content of regions compared symbolically")

prop("C09", "Typed stack and array operations agree on element size and value",
     "For every element type the stack and array operations store, fetch, insert, append, remove, count and hand over elements of exactly that type: "
     "the element at index i occupies bytes [i*size, (i+1)*size), what is pushed or set is what is popped, peeked or got back bit for bit, "
     "and sizes are counted in elements. All nine element types behave alike.",
     ["inputs", "programs"], "all element types, values, indexes and counts",
     "Only some of the about 200 typed wrappers are exercised by tests, with small values.",
     ["data/buffer.h"], [("generated-style inline wrappers", "data/buffer.h")], technique=AI + ", sibling agreement across element types")

prop("C10", "Red-black tree insertion keeps order, balance and all nodes",
     "Inserting a node whose key is absent returns success and yields a tree holding the previous nodes plus the new one, in comparator order, "
     "with a black root, no red node having a red child and equal black counts on all root-to-leaf paths. Inserting a key that is present "
     "fails and changes neither the tree nor the offered node's neighbours.",
     ["inputs", "histories"], "all trees, keys and comparators",
     "Tests insert fixed or short random sequences; rare colour/rotation configurations and root cases need specific shapes.",
     ["data/rbtree.c"], [("lookup path, rotations, insert fix-up", "data/rbtree.c")], technique=SH)

prop("C11", "Red-black tree removal keeps order, balance and all other nodes",
     "Removing a key that is present returns exactly the matching node, detached, and leaves the tree with all other nodes in the same order and "
     "again satisfying the red-black rules. Removing an absent key returns null and changes nothing.",
     ["inputs", "histories"], "all trees, keys and comparators",
     "The many mirror-image rebalancing cases are only sampled by tests.",
     ["data/rbtree.c"], [("successor swap, removal fix-up", "data/rbtree.c")], technique=SH)

prop("C12", "Tree lookup and cursor moves follow comparator order exactly",
     "Lookup returns the node equal to the key exactly when there is one. Head and tail give the first and last node; next and prev move the cursor to the immediate "
     "successor or predecessor in comparator order, return null at the ends without moving the cursor, and a cursor never overruns its fixed-size storage.",
     ["inputs", "histories"], "all trees, cursor positions and keys",
     "Tests walk small trees fully in one direction; mixed next/prev from an arbitrary position and failure at the ends are sampled only.",
     ["data/rbtree.c", "data/rbtree.h"], [("path stack kept by the cursor", "data/rbtree.c")], technique=SH)

prop("C13", "Step-wise tree disposal hands out every node exactly once",
     "Repeatedly calling the disposal step returns each node of the tree exactly once and then null, after which the tree is empty. A node that was handed out "
     "is no longer referenced by the tree, so the caller may free it immediately.",
     ["inputs", "histories"], "all tree shapes and colours",
     "Tests dispose of few trees and do not free nodes under a memory checker.",
     ["data/rbtree.c"], [("disposal step", "data/rbtree.c")], technique=SH)

prop("C14", "Linked list operations keep the list well formed and in order",
     "Initialization, insertion, appending, prepending and removal on the doubly linked, singly linked and queue lists produce exactly the intended sequence of nodes, "
     "with all forward (and, where present, backward and tail) links consistent. This holds for every position, including empty and one-element lists and neighbours of the list head.",
     ["inputs", "histories"], "all list lengths and positions (all aliasings of neighbours)",
     "Tests use short lists and traverse them mostly forward, so stale back or tail links go unnoticed.",
     ["data/list.h"], [("link updates", "data/list.h")],
     technique="shape analysis of list segments with exhaustive neighbour aliasing, on LLVM IR")

prop("C15", "Hash table finds a key exactly when it is present",
     "After any history of insertions, removals, growth and shrinking, lookup and removal find a node with the given key exactly when one was inserted and not removed since, "
     "and inserting a present key is refused without any change. The number of stored nodes is always what the history implies, and no operation loses, duplicates or cross-links nodes.",
     ["inputs", "histories"], "all histories, hash values and comparators",
     "Tests use small tables; agreement of slot computations in all planes after growth and shrink is not exercised for colliding chains.",
     ["data/htable.c"], [("slot index computation, chains, plane merge", "data/htable.c")],
     technique="slot-agreement, chain-segment shape and dataflow analysis on LLVM IR")

prop("C16", "Hash table growth, shrinking and disposal stay within their memory",
     "The hash table accesses its planes only within their allocated sizes, initializes every slot before use, releases exactly the planes it drops, and sizes never overflow. "
     "Finalization calls the destructor exactly once for each stored node, never reads a node after that, and leaves an empty, reusable table.",
     ["inputs", "histories", "fault_sequences"], "all table sizes, histories and allocation failures",
     "Tests never fail an allocation and do not run under a memory checker.",
     ["data/htable.c"], [("plane allocation, shrink, disposal", "data/htable.c")], technique=AI)

prop("C17", "Dictionary add, get and remove behave as an ordered map",
     "A dictionary maps each key (a byte string of any length) to one value: adding an absent key succeeds and yields a new null value, adding a present one returns null, get-or-add returns "
     "the existing one, and removing deletes exactly that item. Items stay in comparator order in a valid red-black tree and the item count always matches, for the default and for custom comparators.",
     ["inputs", "histories"], "all dictionaries, keys and comparators",
     "Tests cover fixed key sets; rare rebalancing shapes, duplicates of uninitialized items and keys with common prefixes are sampled.",
     ["data/value.c"], [("dictionary tree", "data/value.c")], technique=SH)

prop("C18", "Ordered dictionaries remember insertion order",
     "A dictionary created with the maintain-order flag lists and walks its items in the order in which they were inserted, skipping removed ones, for any history of additions and removals. "
     "The order survives any rebalancing, and dictionaries without the flag never touch order information.",
     ["histories"], "all histories of adds and removes",
     "Tests remove from few positions; head/tail/only-item removals and later additions are not combined.",
     ["data/value.c"], [("order list", "data/value.c")], technique="shape analysis of the order list with exhaustive neighbour aliasing, on LLVM IR")

prop("C19", "Dictionary walks visit every item once, in order, and stop on request",
     "A sorted or ordered walk calls the callback once per item in the respective order with that item's key and value, stops at once when the callback returns non-zero and returns that value, and returns zero otherwise. "
     "The key listings give the same sequence, never write more entries than the caller's array holds, and report how many were written.",
     ["inputs", "histories"], "all dictionaries, callbacks and array sizes",
     "Tests walk one small dictionary and do not vary the array size or the abort point.",
     ["data/value.c"], [("stack-based in-order walk, order list walk", "data/value.c")], technique=SH + "; callback typestate")

prop("C20", "Numeric values read back exactly, converted as documented",
     "A numeric or boolean value read with the getter of its own type gives back exactly the stored bits; read with another numeric getter it gives the C conversion "
     "of the stored number, floating point values rounding to the nearest integer (halves away from zero). Getters on a non-numeric or null value return the documented error value and never read outside the value.",
     ["inputs"], "all value types x all getters x all stored numbers",
     "Tests check a handful of numbers per pair of types.",
     ["data/value.c"], [("type tag dispatch, payload copy, rounding", "data/value.c")], technique=AI + ", conversion matrix over all type tags")

prop("C21", "Compatibility test is true exactly when conversion keeps the number",
     "The compatibility test answers true for a value's own type, for integer targets exactly when the stored number lies in the target type's range (and, for floating point values, is "
     "integral), true for numeric-to-floating-point conversions, and false for everything else. It never performs an undefined floating-point-to-integer conversion.",
     ["inputs"], "all pairs of types x all stored numbers",
     "Tests probe a few numbers around zero; range ends are not probed for every pair.",
     ["data/value.c"], [("compatibility matrix", "data/value.c")], technique=AI + ", matrix over all pairs of type tags")

prop("C22", "String values return exactly the stored bytes and length",
     "A string value stores any byte sequence of any length (null meaning empty) and returns exactly these bytes, the same length and a terminating zero byte, whether stored inline or on the heap. "
     "Encoding and decoding of the stored length agree for all lengths.",
     ["inputs"], "all lengths and contents",
     "Tests use short strings; the variable-length size prefix changes at 128, 16384, ... bytes and at 2^31.",
     ["data/value.c"], [("variable-length length prefix, inline/heap storage", "data/value.c")], technique=AI)

prop("C23", "Value arrays keep items in order through any edit",
     "Getting, appending, inserting and removing (single items or ranges) on an array value keep exactly the other items in order, report the right size, and refuse out-of-range indexes and ranges without any change. "
     "Inserted items are new null values, removed ones are finalized exactly once, and no access leaves the array's storage.",
     ["inputs", "histories"], "all sizes, capacities, indexes and counts (including huge ones)",
     "Tests use small arrays; index arithmetic near the size type's maximum and each growth/shrink boundary is not reached.",
     ["data/value.c"], [("range checks, memmove, growth policy", "data/value.c")], technique=AI)

prop("C24", "Path lookup resolves each component and never reads past the path",
     "Path lookup walks components from left to right: a name selects a dictionary item, [i] the i-th array item, [-i] the i-th from the end; anything malformed, missing, out of range "
     "or of the wrong type gives null, and the plain lookup never adds anything. The path string is never read beyond its terminating zero byte, whatever it contains.",
     ["inputs"], "all path strings and value hierarchies",
     "Tests use about ten well-formed paths.",
     ["data/value.c"], [("path tokenizer", "data/value.c")], technique=AI + ", call-protocol check on the resolved lookups")

prop("C25", "Newly added items carry the new mark until initialized",
     "Items added to arrays and dictionaries are null values marked as new, and any initializer (including the null one) clears the mark; nothing else is ever reported as new. "
     "Path building turns only new items into containers and never overwrites an item the application has initialized.",
     ["inputs", "histories"], "all item kinds and initializers",
     "Tests check the mark for few initializers and paths.",
     ["data/value.c"], [("new flag", "data/value.c")], technique=AI)

prop("C26", "Base64 encoding is the standard mapping and respects the output size",
     "For every input and alphabet options the encoder writes exactly the standard Base64 text (with or without padding), returns its length, adds a terminator only when it fits, and returns a negative value without "
     "writing when the output buffer is too small. The size reported for a null output is the text length plus one, and no access leaves the given buffers for any size.",
     ["inputs", "configurations"], "all inputs, sizes and options",
     "Tests encode a few short strings into generous buffers.",
     ["encode/base64.c"], [("triple loop, tail, padding, size computation", "encode/base64.c")], technique=AI + ", per-iteration output formula")

prop("C27", "Base64 decoding inverts encoding and rejects everything else",
     "The decoder accepts exactly texts of alphabet characters of a possible length with optional padding and zero trailing bits, writes exactly the bytes the standard mapping assigns and returns their count. "
     "Any other input gives a negative value, and no access leaves the given buffers or internal tables for any input byte or size.",
     ["inputs", "configurations"], "all texts (all 256 byte values), sizes and options",
     "Tests decode valid ASCII text only.",
     ["encode/base64.c"], [("reverse table, validation loop, quad loop, tail", "encode/base64.c")], technique=AI + ", per-iteration output formula")

prop("C28", "Hex encoding writes two exact digits per byte within the output size",
     "The hex encoder writes for each input byte its two hexadecimal digits, high nibble first, in the requested case, returns the number of digits and adds a terminator only when there is room. "
     "A too small buffer gives -1 without overrun, and a null output reports twice the input size plus one.",
     ["inputs"], "all inputs and sizes",
     "One test input of 17 bytes into a large buffer.",
     ["encode/hex.c"], [("digit tables and size check", "encode/hex.c")], technique=AI + ", per-iteration output formula")

prop("C29", "Hex decoding inverts encoding and rejects every non-digit",
     "The hex decoder accepts exactly even-length strings of hexadecimal digits of either case and writes the bytes they denote, returning their count. Any other character, odd length or too small output "
     "gives -1, and nothing outside the given buffers is accessed.",
     ["inputs"], "all strings over all 256 byte values, all sizes",
     "One valid test input.",
     ["encode/hex.c"], [("digit classification and size check", "encode/hex.c")], technique=AI + ", per-iteration output formula")

prop("C30", "CRC-32 is the standard function for every input",
     "For every data block of any length the CRC routine returns the standard reflected CRC-32 (polynomial 0xEDB88320, initial and final inversion), reading exactly the given bytes.",
     ["inputs"], "all data and lengths (including above 2 GB)",
     "Tests use a few strings, which do not index all 256 table entries, nor lengths above INT_MAX.",
     ["hash/crc32.c"], [("lookup table, byte loop", "hash/crc32.c")],
     technique="abstract interpretation over a GF(2)-affine bit domain with loop recurrence extraction")

prop("C31", "FNV-1a hashes are the standard functions and can be chained",
     "For every start value and data block the 32- and 64-bit FNV-1a routines fold each byte in order by xor and multiplication with the standard prime, reading exactly the given bytes; the published base "
     "constants are the standard ones. Hence hashing a block in pieces equals hashing it at once.",
     ["inputs"], "all start values, data and lengths",
     "Tests use a few short strings.",
     ["hash/fnv1a.c", "hash/fnv1a.h"], [("xor-multiply loop", "hash/fnv1a.c")], technique=AI + " with loop recurrence extraction")

prop("C32", "Chunk allocator hands out disjoint live memory and frees all of it",
     "Each successful allocation from a chunk returns a block of the requested size that lies in memory owned by the chunk and overlaps no other block handed out before, for every block size and request size. "
     "Finalization releases every underlying block exactly once; impossible sizes give null.",
     ["inputs", "histories"], "all block sizes, request sizes and histories",
     "Tests allocate few small pieces; big-request and boundary cases are not combined.",
     ["mem/memchunk.c"], [("free offset, big-block path, block list", "mem/memchunk.c")], technique=AI)

prop("C33", "Stack-or-heap allocation always releases correctly",
     "Memory from the stack-or-heap macro offers at least the requested size, comes from the stack exactly for requests below the threshold, and its release macro frees exactly the heap ones. Impossible sizes give null, "
     "releasing null does nothing, and the macros work with any argument expression without side effects and any variable names.",
     ["inputs", "programs"], "all sizes, thresholds and argument expressions",
     "Tests use three sizes and one variable name.",
     ["mem/malloca.h"], [("mark stored before the block", "mem/malloca.h")], technique=AI + " of macro expansion witnesses")

prop("C34", "Option parser reports each argument once and stops when told to",
     "The parser reports every command line token to the callback in order and exactly as documented: option id with its argument, non-options, unknown options, missing and superfluous arguments, grouped short options, compiler-like "
     "options and everything after a double dash. As soon as the callback returns non-zero it is not called again and that value is returned; otherwise zero is returned.",
     ["inputs", "configurations"], "all option tables and argument vectors",
     "Tests use one option table and a few dozen command lines.",
     ["misc/cmdline.c"], [("token dispatch, callback result propagation", "misc/cmdline.c")], technique="callback typestate and argument-provenance analysis by " + AI)

prop("C35", "Option parser never reads or writes out of bounds",
     "For any option table and argument vector, of any string lengths, the parser reads argument and option strings only up to their terminating zero, reads no argument beyond the given count, and never overruns its internal buffers. "
     "Every string passed to the callback is properly terminated.",
     ["inputs", "configurations"], "all option tables and argument vectors",
     "Tests have no over-long option names and no memory checker.",
     ["misc/cmdline.c"], [("string comparisons, bounded copies", "misc/cmdline.c")], technique=AI)

prop("C36", "Utility macros work with any argument expression",
     "The minimum, maximum, three-way, clamp, absolute value, array size, offset, container and stringize macros yield the mathematically right result for any argument expressions without side effects which share an arithmetic type (no NaN, ordered clamp bounds), regardless of operator "
     "precedence in the arguments or around the macro, and can be nested. The container macro exactly inverts taking a member's address.",
     ["programs", "inputs"], "all argument expressions and surrounding operators",
     "Tests use plain constants as arguments.",
     ["misc/defs.h"], [("macro definitions", "misc/defs.h")], technique="macro hygiene witnesses: IR of expansions compared by abstract evaluation over all orderings")

prop("C37", "Memory stream reads stay within the data for every position and size",
     "Reading, seeking and copying on a memory stream touch only the given data for every position, offset and count, advance the position by exactly the bytes transferred, report end of data as documented and keep the position "
     "unchanged when a seek fails.",
     ["inputs", "histories"], "all positions, offsets, origins and counts (full 64-bit range)",
     "The tests are Windows only and do not run here.",
     ["win32/memstream.c"], [("clamping of counts, seek range checks", "win32/memstream.c")], technique=AI + " (compiled against stub Windows headers)")

prop("C38", "Memory stream honours the COM contract",
     "A stream starts with one reference, is destroyed exactly when the last one is released, hands out only interfaces it implements (counting the new reference) and sets outputs to null on failure. Write-type methods fail without any effect, failures are "
     "reported with failing result codes, and clones share data and position but nothing else.",
     ["inputs", "histories", "schedules"], "all call sequences and interface ids",
     "The tests are Windows only and do not run here.",
     ["win32/memstream.c"], [("reference counting, method table", "win32/memstream.c")], technique="typestate and effect analysis, " + AI + " (compiled against stub Windows headers)")

prop("C39", "Growing containers cost amortized constant time per operation",
     "A sequence of N appends, insertions or removals at the end of a buffer, array or hash table performs O(N) work in total.",
     ["histories"], "all operation histories", "Tests do not measure cost.",
     ["data/buffer.c", "data/value.c", "data/htable.c"], [("growth policy", "data/buffer.c")],
     na="amortized cost quantifies over run-time histories and real allocator behaviour; no structural rule in the source is a necessary condition that would not also fire on a harmless change of the growth policy")

prop("C40", "Hash functions spread typical keys evenly",
     "The hash functions distribute realistic key sets close to uniformly over hash table slots.",
     ["inputs"], "realistic key sets", "Tests compare fixed vectors only.",
     ["hash/fnv1a.c", "data/htable.c"], [("hash functions", "hash/fnv1a.c")],
     na="a statistical statement about run-time key distributions; not a property of the shape of the code (the exact hash functions are decided by C30 and C31)")

prop("C41", "Tree and dictionary recursion and path storage suffice for any memory size",
     "No tree that fits into the address space can be deeper than the fixed path storage used by tree and dictionary operations.",
     ["histories"], "all tree sizes up to the address space", "Tests build trees of at most thousands of nodes.",
     ["data/rbtree.h", "data/rbtree.c", "data/value.c"], [("fixed path arrays", "data/rbtree.h")],
     technique="node-size based depth bound from the source's type layouts; bounds of every path access under it by shape analysis (red-black tree zipper domain) of the LLVM IR")

prop("C42", "No operation performs arithmetic that C leaves undefined, for any input",
     "No operation evaluates a signed addition, subtraction or multiplication whose exact result does not fit into its type, shifts by the operand's width or more, divides by zero, or converts a floating-point number "
     "to an integer type that cannot hold it, for any objects and arguments that meet the documented preconditions, sizes, offsets and lengths beyond 2^31 included. (Reading a stored floating-point number through an integer getter presupposes that it is in range.)",
     ["inputs", "histories"], "all valid objects, sizes, offsets, lengths, option tables and argument vectors",
     "Undefined arithmetic shows only for inputs of more than 2 GB or values at the edge of a type, and even then a test passes when the compiler happens to wrap.",
     ["data/buffer.h", "data/htable.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"],
     [("counters and length computations", "all modules"), ("string length prefix, number conversions", "data/value.c")],
     technique="abstract interpretation of the LLVM IR (linear integer domain) with an obligation at every arithmetic instruction whose overflow is undefined")

prop("C43", "Every operation comes to an end, for any input",
     "Every operation returns after finitely many steps for any objects and arguments that meet the documented preconditions, provided the user's callbacks return: no loop over data, digits, capacities, path components, arguments, "
     "slots, list items or tree nodes repeats for ever, for any size, content or shape, sizes beyond 2^32 and comparators returning any number of the right sign included.",
     ["inputs", "histories"], "all valid objects, sizes, texts, option tables and argument vectors",
     "A loop that does not end shows only for the particular size, text or shape that keeps it going, often beyond what a test can allocate.",
     ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"],
     [("growth loops", "data/buffer.c"), ("path components", "data/value.c"), ("argument loop", "misc/cmdline.c")],
     technique="abstract interpretation of the LLVM IR with ranking functions for summarised loops, progress of walks over linked structures, and refutation by repeated states and starts without a way out")
