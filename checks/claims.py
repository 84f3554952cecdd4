CLAIMED = {
    "C01": "Sound over the resolved call graph of each module (libc functions from a fixed table); stores go to locals or memory reached from the arguments (that they stay within the blocks is decided by the bounds checks of C14, C10-C12, C26-C31, C35).",
    "C02": "Decides the structural part: no static store, no mutable static handed out, no libc call with hidden state, on any path. Data races on a shared object are outside the property.",
    "C03": "Points-to based store targets of every query, helpers specialised per constant argument; covers every store on every path.",
    "C04": "Include graph, symbol dependency and compile/link witnesses, exhaustive over modules, headers, C and C++ dialects listed.",
    "C05": "Every allocation call of the buffers, stacks, arrays, chunk allocator, value initializers (all types), string values, array values and hash tables, failing on every path on which it can fail; the object's content after the failure is compared as in C08, C09, C22, C23, C32, C15.",
    "C06": "Ownership of every heap block on every path of the same operations and of the stack-or-heap macros: released at most once, only allocator blocks, no use after release, nothing lost at return; block lists, item sets and all sizes are arbitrary.",
    "C07": "Every public buffer, stack and array function analysed for an arbitrary valid object (any size <= capacity <= PTRDIFF_MAX, with or without a block), arbitrary offsets, counts and data; bounds of every access, capacity invariants and failure results are decided for all values. Compile-time constants and element types are those the headers generate.",
    "C08": "Content equality for every byte position (one symbolic index covers all) of every byte-level operation, over all objects, offsets and counts accepted by the documented precondition.",
    "C09": "Every typed function generated by the headers, checked at the level of elements (size, position and bytes) for all objects and values.",
    "C26": "All inputs and sizes up to the int limit, both padding modes and arbitrary digit options; each output byte compared with the RFC 4648 mapping for an arbitrary position.",
    "C27": "All inputs and sizes; default options and option sets with distinct digits outside the standard 62 (as an encoder needs). Output bytes, accepted set, lengths and error results.",
    "C28": "All inputs and sizes: every output digit, the terminator, sizes and bounds.",
    "C29": "All inputs and sizes: accepted characters, every output byte, sizes and bounds.",
    "C30": "Loop transition function proved equal to the bit-serial CRC step (GF(2)-affine domain), processed bytes, start value and final inversion, for blocks of any length.",
    "C31": "Loop transition function compared modulo 2^w with the FNV-1a step for any start value and block length; published basis constants.",
    "C14": "Every shape up to five nodes plus lists of arbitrary length (opaque gap segments of any length between the touched nodes), every position and operation; the link fields of every touched node and the untouched rest.",
    "C32": "Every request and block size, blocks held in an arbitrary earlier state (any list of blocks), all paths including allocation failure; release loop explored to a fixpoint over list shapes.",
    "C33": "IR of macro expansions analysed for every size and threshold value; argument expressions, types and variable names are a fixed catalogue.",
    "C36": "IR of expansions compared with a reference for all operand values of ten arithmetic types; argument expressions, contexts, names and nestings are a fixed catalogue of about 1200 witnesses.",
    "C10": "Every red-black tree whose paths stay within the bound of C41 (120 nodes) and every position of the new key, comparator results of any magnitude: a shape domain with summarised tree segments, walked to a fixpoint. A total order given by the comparator and a node that is not in the tree yet are preconditions.",
    "C11": "Every red-black tree (paths within the bound of C41, 120 nodes) and every key, present or absent: which node leaves, order of the others and all red-black rules afterwards; fixpoint over every iteration of the search, successor and repair loops.",
    "C12": "Every tree and every cursor position (arbitrary depth), every search outcome; the cursor entries are compared with the path to the node.",
    "C13": "One step on an arbitrary, also unbalanced, binary tree of any size; a whole teardown follows by induction since each step removes exactly the returned node.",
    "C15": "Every table with up to 54 planes (no more can be allocated; quick: a selection that covers each kind of plane), slots holding arbitrary chains, every hash value and comparator result; searches to a fixpoint, loops over slots by one generic iteration, slot agreement proved modulo the plane sizes.",
    "C16": "The same states: bounds of every slot access, initialization of every slot of a new plane, release of planes, allocation failures, and a typestate of each node for the destructor.",
    "C17": "Every red-black tree (paths within the bound of C41), keys of any bytes and lengths, default and custom comparator, plain and ordered dictionaries, failing allocations: which item is found, added or removed, order of the others, red-black rules, item count, key text, new value; cleaning and finalizing; refusals for every other value type. Fixpoint over every loop iteration.",
    "C18": "The same states with the insertion order as a doubly linked list of generic items (removed item first, last, only or between neighbours): every link after each operation, no other link changed; walks and listings follow it. Histories follow by induction on the operations.",
    "C19": "Loop contract of each walk and listing: arbitrary tree and stack depth, arbitrary callback results, arbitrary array room; one generic iteration visits exactly the next item, and every exit returns what the case asks for. The callback is assumed not to change the dictionary.",
    "C41": "Depth bound computed from the node sizes in the source (2 log2(n+1) for as many nodes as fit into 2^64 bytes), then every access to path storage in every tree and dictionary operation is proved in range for all red-black trees within that bound; balance itself is C10, C11, C17.",
    "C20": "Every stored type (also null, new, null pointer, containers) x every getter, for all stored numbers: integers as arbitrary symbols, floating-point numbers as exact terms partitioned by sign and by having a fraction. The sign of zero and NaN payloads are not tracked.",
    "C21": "Every stored type x every target type for all stored numbers, including the ranges around every bound; every float-to-integer conversion is proved in range.",
    "C22": "All lengths up to PTRDIFF_MAX (cut where the prefix grows), arbitrary bytes, inline and heap storage, allocation failure.",
    "C23": "Arbitrary valid array (any size <= capacity, any item bytes), all indexes and counts, growth and shrinking including failed allocations; finalizing of an item is modelled by its public entry point.",
    "C24": "Every path string split into components of 28 shapes with segments of arbitrary length, every type of the current value, every index number (contract of the digit loop), root values and null pointers: one generic iteration of the component loop is compared with the specification, paths of any number of components follow by induction; every read inside the path.",
    "C34": "Loop contracts: an arbitrary token (text of any length), any position in an option table of any length, any letter of a group, arbitrary callback answers; every report is compared with the documented one for the first record that matches, every return with the answer. Ids are not the reserved ones, no short name is '-', compiler-like options have a name.",
    "C35": "The same runs: every read of argument and option strings up to their terminating zero, every token index below argc, every write to the parser's buffers in range, text passed to the callback terminated; strings of any length.",
    "C37": "Every method of the stream's method table on a stream of any size (2^64-1 included), any position, any number of references; all offsets, counts and origins; other streams may take any part of what they are offered or fail. The data is assumed not to change meanwhile.",
    "C38": "The same runs plus creation, query and clone: reference counts with other threads taking and giving up references between any two steps, outputs and result codes of each path including failing allocations and Win32 calls; a stream is not touched after a reference was given up unless it was the last.",
    "C42": "About 1.1 million arithmetic obligations on the paths of the other properties' runs, all sizes and values; bounded by the models and preconditions of those runs. Signed left shifts are judged by their amount only, macros (C36) and comparators and callbacks of the user are excluded.",
    "C43": "Every loop on the runs of the other properties: about 650 loop instances ended by a bound or ranking, and 230000 iterations of walks over linked structures each of which changes the state. Walks are shown to make progress, not ranked by the size of the structure; their finiteness rests on the shape invariants of C10-C19. A loop that is neither ranked nor refuted is reported as undecided (none on this tree).",
    "C25": "Every initializer on new items and on uninitialized memory, every operation that adds items on arbitrary arrays and dictionaries (trees as in C17), and path building for every component shape and type of the current value.",
}
NOT_YET = {}
