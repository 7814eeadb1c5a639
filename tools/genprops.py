import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
AH="arena/arena.hpp";AC="arena/arena.cc";MH="arena/metrics.hpp";SH="string/string.hpp";ASH="string/arena_string.hpp";VH="container/stdb_vector.hpp";OH="optparse/optparse.hpp";OC="optparse/optparse.cc"
blkstate=[("block header (prev, pos, size, limit)","bump position, low-water mark of cleanup records and link to the previous block","arena/arena.hpp class Arena::Block"),("last block / space allocated","head of the block list and total bytes obtained","arena/arena.hpp class Arena private members")]
p("A01","Arena allocations are aligned, in-bounds, disjoint and stable",
"Every pointer a live arena hands out (raw allocation, allocation with cleanup, created object or array, or through its memory resource) is aligned to at least 8 bytes, to the requested alignment and to the type's alignment, and lies wholly inside memory the arena obtained from its block allocator. Its bytes overlap no other live allocation, no block header and no cleanup record. Whatever the user stored there stays unchanged, whatever else is allocated from the arena, until the arena is reset or destroyed.",
["histories","configurations"],"every sequence of arena operations, sizes (including 0), alignments 8/16/32, block-size options and block base addresses",
"The tests check a handful of fixed sizes in one or two blocks; overlap depends on the exact interleaving of bump allocations, alignment padding, cleanup records growing from the other end, and block switches.",
[AH,AC],[("bump allocation with alignment padding","arena/arena.hpp Block::alloc / has_enough_space, arena/arena.cc AlignPos"),("new block on exhaustion","arena/arena.cc Arena::newBlock, allocateAligned"),("cleanup records from the block end","arena/arena.hpp Block::alloc_cleanup")],blkstate,["returned pointers","block_alloc/block_dealloc callbacks"])
p("A02","Each registered cleanup runs exactly once, newest first",
"Every destructor, cleanup function or owned-object deletion registered with an arena runs exactly once: at the next reset or at the arena's destruction, whichever comes first, and never earlier. They run in the reverse of the registration order, with the registered pointer, while the memory of the object is still intact; a cleanup may itself use the arena, and what it registers runs exactly once too. Objects whose type is trivially destructible or opted out of destruction are never destructed by the arena.",
["histories","configurations"],"every sequence of create/own/allocate-with-cleanup/reset/destroy over any block configuration",
"The tests register a few cleanups in one or two blocks; ordering and exactly-once across many blocks, resets and reuse of the first block are not explored.",
[AH,"arena/arenahelper.hpp"],[("cleanup list walk","arena/arena.hpp Block::run_cleanups, Block::Reset, free_all_blocks, free_blocks_except_head"),("destructor registration","arena/arena.hpp RegisterDestructor / addCleanup / Own"),("skip-destruct trait","arena/arenahelper.hpp ArenaHelper::is_destructor_skippable")],blkstate,["destructor and cleanup calls"])
p("A03","Every block is returned to its allocator exactly once",
"Each block an arena obtains from its configured allocation function is handed back to its configured deallocation function exactly once, and nothing else ever is. A reset returns every block but the first one, which is retained and reused; destruction returns all of them; no block is returned while an allocation in it is still valid.",
["histories","configurations"],"every sequence of allocations, resets, moves and destruction, for any block-size options",
"Tests use a mock allocator on short scripts with at most three blocks; leaks or double frees on particular reset/reuse histories are not reachable there.",
[AH,AC],[("block list release","arena/arena.hpp free_all_blocks, free_blocks_except_head, ~Arena, Reset")],blkstate,["block_alloc/block_dealloc callbacks"])
p("A04","Space accounting is exact",
"The reported allocated space always equals the sum of the sizes of the blocks the arena currently holds, and reset returns the value from just before it. The reported remaining space is exactly what can still be allocated from the current block: a request that fits in it never obtains a new block and lowers it by exactly the rounded size plus padding, and each cleanup record lowers it by one record. Each new block is large enough for the request that caused it and its size follows the configured initial, normal and huge block sizes.",
["histories","configurations"],"every allocation history and every block-size configuration",
"Tests pin a few numbers for two configurations; the policy has four size classes, boundary equalities and interactions with alignment and cleanup records.",
[AH,AC],[("size policy","arena/arena.cc Arena::newBlock"),("counters","arena/arena.hpp SpaceAllocated, SpaceRemains, Reset")],blkstate,["SpaceAllocated/SpaceRemains/Reset return values","block_alloc sizes"])
p("A05","Pointer classification is exact",
"Asking an arena about any address answers that it is foreign if and only if it lies in no block the arena currently holds. Otherwise the answer tells precisely whether it lies in a block header, in already allocated space, in still unallocated space, or in the area of cleanup records.",
["histories","inputs"],"every address in and around every block, after every allocation history, over any number of blocks",
"The test probes a few addresses of one arena with few blocks; boundaries of each region in every block are not swept.",
[AC],[("region walk","arena/arena.cc Arena::check")],blkstate,["return value of the classification query"])
p("A06","Failed and oversized requests change nothing",
"When the block allocator cannot provide memory, or a request is too large to be represented together with its bookkeeping, raw allocation, creation, array creation and ownership registration report failure (null or false) and allocation through the memory resource throws bad_alloc; no request ever yields memory smaller than asked. A failed request leaves earlier allocations and pending cleanups intact and the accounting truthful, leaves no constructed object behind undestroyed, and the arena keeps working afterwards.",
["fault_sequences","histories","inputs"],"every placement of block-allocator failures in a history, and every request size up to the maximum of the size type",
"Tests return null from the allocator a few times on fresh arenas; no test passes sizes near the type's limits or fails an allocation in the middle of a history.",
[AH,AC],[("null propagation","arena/arena.cc Arena::newBlock, allocateAligned"),("overflow guard","arena/arena.hpp CreateArray, arena/arena.cc newBlock"),("pmr failure","arena/arena.hpp Arena::memory_resource::do_allocate")],blkstate,["return values under injected block_alloc failures"])
p("A07","Lifecycle hooks report every event exactly once with true values",
"The init hook fires once per arena and the value it returns is what every later hook of that arena receives; the destruction hook fires exactly once, at the end. Each successful public allocation or creation fires the allocation hook once with the requested byte size and the type; each new block fires the new-block hook once with its position in the block list and its size; each reset fires the reset hook once. Reset and destruction hooks receive the total block bytes held just before and the exact sum of unallocated bytes in those blocks.",
["histories","configurations","fault_sequences"],"every arena history, including failed allocations and moved arenas, with any subset of hooks installed",
"The test fires each hook once or twice on one small script.",
[AH,AC],[("hook calls","arena/arena.hpp init, Create, CreateArray, AllocateAligned*, Reset, ~Arena; arena/arena.cc newBlock")],None,["hook callbacks"])
p("A08","Moving an arena transfers everything and leaves the source inert",
"After move construction, all blocks, pending cleanups, accounting, hook state and the memory resource belong to the new arena: existing pointers stay valid, containers bound to the old arena's memory resource keep allocating from the new one, and everything is released exactly once, by the new arena. The source holds no memory and destroying it has no observable effect.",
["histories"],"every allocation history before and after the move, chains of moves, and both destruction orders",
"No test moves an arena and then uses its memory resource or counts hook calls.",
[AH],[("move constructor","arena/arena.hpp Arena(Arena&&)"),("back pointer of the memory resource","arena/arena.hpp Arena::memory_resource")],None,["containers used after the move","hook callbacks","block_dealloc"])
p("A09","Standard pmr containers on an arena behave as on the heap",
"Any standard polymorphic-allocator container bound to an arena's memory resource goes through the same observable states as one on the default resource, while all of its storage, including that of nested elements, lies in that arena's allocated space. Deallocation through the resource is a no-op that never invalidates other memory, and two resources compare equal exactly when they refer to the same arena.",
["histories","configurations"],"every history of container operations, element types up to 32-byte alignment, and block configurations",
"Tests reserve or push a few elements into one or two containers.",
[AH],[("resource adapter","arena/arena.hpp Arena::memory_resource do_allocate/do_deallocate/do_is_equal")],None,["container contents","element addresses against the arena's blocks"])
p("A10","Arena creation constructs what was asked for, with the arena where usable",
"Creating an object in an arena yields exactly one object of that type built from the given arguments; a type that accepts a polymorphic allocator receives the arena's resource as the last argument, a type that accepts the arena as first argument receives the arena, and any other type gets the arguments as given. Creating an array yields exactly the requested number of contiguous, individually value-initialised elements, whatever the memory contained before.",
["programs","inputs"],"every creatable type and argument list, every array length, fresh and recycled memory",
"Tests create a few types in fresh memory, where missing initialisation is invisible.",
[AH,"arena/arenahelper.hpp"],[("constructor selection","arena/arena.hpp Construct, Create, CreateArray")],None,["constructed values, allocator and arena received"])
p("A11","Objects used by different threads are independent",
"Threads that each use their own arenas, strings (clones of other threads' strings included), vectors and option parsers need no synchronisation: no data race occurs and every thread observes exactly the results it would observe running alone. Operations that only read an object (comparing, searching, iterating, indexing; not copying or cloning a string, whose sharing count is not atomic) may run on one object in several threads at once. Destroying or resetting one thread's objects never affects another thread's objects or counters.",
["schedules"],"every interleaving of threads working on distinct objects, including short-lived threads",
"The suite is single threaded for these components.",
[AH,AC,MH,SH,ASH,VH,"optparse/optparse.cc"],[("no shared mutable state, thread-local metrics","arena/metrics.cc, arena/metrics.hpp local_arena_metrics"),("empty/default representations","string/string.hpp string_core")],None,["per-thread results, race detector reports"])
p("M01","Thread-local metrics equal the events of the thread's arenas",
"With the metrics hooks installed, a thread's counters equal exactly what its arenas did: arenas created, reset and destroyed, blocks obtained, public allocations and their byte total, and space used, wasted and recycled as passed by the lifecycle. Every allocation is counted in the one size bucket it belongs to (none when above the largest) and its bytes are credited to the place the arena was created; every destroyed arena's lifetime is counted in exactly one bucket unless longer than the largest.",
["histories","inputs"],"every history of arenas with the metrics probes installed, all allocation sizes and bucket boundaries",
"Tests check single increments; bucket boundaries, zero sizes, several live arenas and resets are not combined.",
[MH],[("probes","arena/metrics.hpp metrics_probe_on_*"),("bucketing","arena/metrics.hpp increase_*_counter")],[("local metrics","per-thread counters","arena/metrics.hpp LocalArenaMetrics")],["thread-local counters"])
p("M02","Global metrics conserve what threads report, at any concurrency",
"After any set of threads have reported, every global counter, bucket and per-location total equals the sum of what was reported, with nothing lost or counted twice, however the reports interleave with each other, with rendering the report and with first-time locations. Reporting leaves the reporting thread's own counters at zero, and no data race or crash occurs.",
["schedules"],"every interleaving of concurrent reports and report rendering, over any number of threads and locations",
"The test reports from sequentially joined threads; concurrent first-time insertion of a location is never exercised.",
[MH,"arena/metrics.cc"],[("relaxed atomic accumulation","arena/metrics.hpp report_to_global_metrics"),("location map","arena/metrics.hpp GlobalArenaMetrics::arena_alloc_counter")],[("global metrics","process-wide counters","arena/metrics.hpp GlobalArenaMetrics")],["global counters, race detector reports"])
p("M03","The metrics report renders any state truthfully",
"Rendering the global metrics succeeds in every reachable state, including before anything was allocated or destroyed. It shows each counter's value, for each size and lifetime bucket the cumulative share of allocations or destructions up to that bucket, and the byte total of every creation location.",
["histories","inputs"],"every combination of counter values reachable by reporting and resetting",
"The test prints one populated state and does not parse it.",
[MH],[("renderer","arena/metrics.hpp GlobalArenaMetrics::string")],None,["rendered text"])
p("S01","The string behaves as the standard string under every history",
"Any sequence of operations on the library's string (construction, assignment, append, insert, replace, erase, resize, push/pop, substring, swap, concatenation, element access, iteration, copies and moves) yields the same contents, size and returned values as the same sequence on the standard string. This holds for contents with embedded zero bytes, for every transition between small, medium and large representations, when the argument is part of the string being modified, and for characters of one, two and four bytes.",
["histories","inputs"],"all operation sequences, contents, lengths around the 23/24 and 254/255 representation boundaries and self-referential arguments",
"The suite compares fixed short scripts; representation boundaries times operation times aliasing is far larger than what it samples.",
[SH],[("three representations","string/string.hpp string_core init*/expandNoinit*/shrink*/reserve*"),("aliasing","string/string.hpp append/insertImpl/replaceAliased/replaceImpl")],[("string core","small buffer, medium malloc or large reference-counted storage","string/string.hpp string_core")],["contents after each operation"])
p("S02","Copies of a string are independent values",
"Copying or assigning a string yields a value that no later operation on the original, or on any other copy, can change, and vice versa, however storage is shared internally and whichever of them is modified, moved or destroyed first (writing through a reference, iterator or pointer obtained before the copy was made is not such an operation). A clone shares no storage at all with its original. The shared storage is released exactly once, after its last user is gone, and never while one remains.",
["histories"],"all interleavings of copies, mutations through every mutating entry point (including writable references, pointers and iterators), moves and destructions over a family of copies",
"Sharing only occurs above 254 bytes, where the suite copies once or twice and mutates through few entry points.",
[SH],[("copy on write","string/string.hpp copyLarge, unshare, mutableDataLarge, RefCounted")],[("reference count","number of strings sharing a large buffer","string/string.hpp RefCounted")],["contents of every copy after each operation; allocator events"])
p("S03","String storage is contiguous, zero-terminated and honours capacity",
"At all times the character after the last one, seen through the character pointer, is zero, the capacity is at least the size and at least any reservation since the last shrink, and the pointers seen through all accessors agree. While a string is not shared, growing it within its capacity neither moves its characters nor allocates (except the first growth out of the in-object form in debug builds), shrinking keeps the contents, and repeated appending reallocates only logarithmically often.",
["histories","inputs"],"all operation sequences and lengths around representation boundaries",
"Termination and capacity are asserted at a few sizes only; missing terminators are invisible unless the following byte is non-zero.",
[SH],[("terminator writes","string/string.hpp string_core expandNoinit, shrink*, init*, c_str"),("growth policy","string/string.hpp expandNoinit, reserve, string_core::reserve*")],None,["data()/c_str()/capacity() after each operation; allocator events"])
p("S04","Invalid string arguments throw the standard errors and change nothing",
"Positions beyond the end given to access, substring, insert, erase, replace, compare and append-from-position raise out_of_range exactly when the standard string does, and lengths that cannot be represented raise length_error or bad_alloc. After any such exception the string is unchanged and fully usable; counts reaching past the end are clamped as in the standard string.",
["inputs","histories"],"every operation taking positions and lengths, with positions and counts around the size and up to the maximum of the size type",
"Only a couple of throwing calls are tested, and the state after them is not examined.",
[SH],[("bounds enforcement","string/string.hpp enforce / procrustes / length checks")],None,["exceptions and contents after them"])
p("S05","Running out of memory never corrupts a string",
"If memory allocation fails during any string operation, the operation throws bad_alloc, the strings involved remain valid and keep their previous contents (except the target of a stream read), and every byte of memory is still released exactly once. The operation succeeds when retried with memory available.",
["fault_sequences","histories"],"every allocation made by every operation, failed one at a time and in runs, in every representation",
"No test injects allocation failures.",
["string/string.hpp"],[("checked allocation","string/string.hpp checkedMalloc/checkedRealloc/smartRealloc, RefCounted::create/reallocate")],None,["exceptions, contents and allocator events under injected malloc/realloc failures"])
p("S06","String search, comparison and hashing agree with the standard string",
"Every form of find, rfind, find-first/last-(not-)of, starts/ends-with, contains, compare and relational operator returns what the standard string returns for the same contents, positions and counts, including empty needles, embedded zero bytes, bytes above 127, positions past the end, and character traits of the user's own. Equal strings hash equally whatever their representation or history, strings that differ anywhere hardly ever do, and hashed and ordered containers of strings behave like those of standard strings.",
["inputs"],"all contents, needles, positions and counts",
"The suite tries fixed strings; position/count/needle corner combinations are not enumerated.",
[SH],[("search","string/string.hpp find/rfind/find_*_of"),("comparison and hash","string/string.hpp compare, operators, std::hash specialisation")],None,["return values"])
p("S07","String input, output and conversions round-trip every value",
"Writing a string to a stream, formatting it, converting it to or from a standard string or string view preserves every byte. Reading words or delimited lines from a stream gives the same strings, stream state and remaining input as the standard string does, for every input and every line length.",
["inputs"],"all byte contents (embedded zeros, high bytes), delimiters, widths, lengths around the internal read-buffer and representation boundaries",
"Tests read a couple of short lines.",
[SH],[("stream operators","string/string.hpp operator<<, operator>>, getline, to_string, fmt formatter")],None,["streams and strings after the operation"])
p("S08","The arena string behaves as the standard string under every history",
"Any sequence of operations on arena-backed strings sharing an arena yields the same contents, sizes and return values as on standard strings, for all lengths, embedded zero bytes and self-referential arguments, and copies are independent values. Converting between the arena string, the plain string, string views and standard strings preserves every byte.",
["histories","inputs"],"all operation sequences, lengths around 23/24, and several strings per arena",
"The suite runs a copy of the fixed string scripts.",
[ASH,SH],[("arena-backed core","string/arena_string.hpp arena_string_core"),("shared algorithms","string/string.hpp basic_string")],None,["contents after each operation"])
p("S09","Arena strings take all storage from their own arena",
"The characters of an arena-backed string lie either inside the string object or in memory its arena handed out, never on the heap or in another arena, also for strings derived by copying, substring, concatenation and container growth. Arena strings never free memory themselves, stay valid until their arena is reset or destroyed, and when the arena cannot provide memory the operation throws bad_alloc and the string keeps its contents.",
["histories","fault_sequences"],"all operation sequences over several arenas, block sizes, and block-allocator failures",
"One test asserts the address of a few strings; heap use and failure paths are not observed.",
[ASH,AH],[("allocation through the polymorphic allocator","string/arena_string.hpp initLarge/reserve/expand")],None,["character addresses against arena blocks; global heap events"])
p("S10","Arena strings without an arena give every byte back exactly once",
"In release builds an arena-backed string made without an arena takes its storage from the default memory resource and behaves as the standard string under every history; copies may share storage. Every piece of memory is returned to that resource exactly once, with the size and alignment it was requested with and after its last user is gone, nothing remains when all strings are destroyed, and when the resource throws bad_alloc the operation throws it and the string keeps its contents. (Debug builds refuse such strings.)",
["histories","fault_sequences"],"all operation sequences, lengths and failing allocations on the default resource",
"The tests are debug builds, which refuse such strings, so nothing of this path is ever run.",
[ASH,SH],[("returning storage to the default resource","string/arena_string.hpp destroyMediumLarge, RefCounted::decrementRefs, arena_smartRealloc"),("growth","string/arena_string.hpp reserve/unshare")],None,["every request to and return to the resource, contents after each operation"])
p("V01","The vector behaves as the standard vector under every history",
"Any sequence of operations on the library's vector (construction, assignment, insertion, emplacement, erasure by position, range, value or predicate, resizing, reserve, shrink, swap, copy, move, push and pop) leaves the same elements and returns the same values and positions as the same sequence on the standard vector; only erasing a range returns the position passed as its end. This holds for trivially copyable, movable, copy-only and move-only elements, empty ranges and zero counts, and for inserted, emplaced, appended or resized-with values that refer to elements of the vector itself.",
["histories","inputs","programs"],"all operation sequences, positions, counts and element categories",
"The suite runs fixed scripts, mostly on int and string, without aliasing arguments or empty ranges.",
[VH],[("shifting and reallocation","container/stdb_vector.hpp move_backward, move_forward, realloc_with_move, realloc_and_emplace_back"),("modifiers","container/stdb_vector.hpp insert/emplace/erase/assign/resize")],[("start, finish, edge","owned buffer, end of elements, end of buffer","container/stdb_vector.hpp core")],["contents and return values after each operation"])
p("V02","Vector elements are constructed and destroyed exactly once",
"Every element object a vector constructs is destroyed exactly once, no operation is ever applied to an object before its construction or after its destruction, and the number of live element objects equals the vector's size between operations. When the vector is destroyed nothing it constructed or allocated remains. For types declared relocatable, ownership held by an element is neither lost nor duplicated.",
["histories","programs"],"all operation sequences for element types of every category whose lifetime is observable",
"Tests do not count lifetimes; for most types a missed destructor is invisible.",
[VH],[("construct/destroy pairing","container/stdb_vector.hpp move_range_*, destroy_range, erase, erase_if, assign")],None,["element constructor/destructor events"])
p("V03","Vector storage obeys capacity: stable within, sufficient after, frugal growth",
"Elements are contiguous and aligned for their type, capacity is never below size, reserving makes it at least the requested number for as long as the vector keeps its buffer, and shrinking to fit makes it equal to the size. Operations that fit in the capacity never move or reallocate the elements before the modified position, so pointers and iterators to them stay valid. Appending n elements one by one, or in pieces by insertion, fill or write buffer, reallocates only O(log n) times for every element size, and moving or swapping vectors transfers the buffer without touching elements.",
["histories","inputs"],"all operation sequences, element sizes from 1 byte to larger than 128 KiB",
"Tests assert capacities for a few int vectors.",
[VH],[("growth policy","container/stdb_vector.hpp compute_next_capacity, compute_new_capacity"),("reserve/shrink","container/stdb_vector.hpp reserve, shrink_to_fit, realloc_with_old_data")],None,["data()/capacity() and allocator events"])
p("V04","A failing allocation or element copy leaves the vector valid",
"If allocating storage fails, requested counts exceed what can be represented, or an element's copy, construction or comparison, an erasing predicate or the iterator of an inserted range throws (relocation by move does not throw), the exception reaches the caller and every vector involved can still be inspected, modified and destroyed. No element is leaked, destroyed twice or left unconstructed inside the vector; appending or reserving that fails leaves the vector exactly as it was.",
["fault_sequences","histories"],"every allocation, element construction and comparison, predicate call and iterator step of every operation, failed one at a time",
"No test injects failures.",
[VH],[("allocation checks","container/stdb_vector.hpp core::allocate, realloc_with_move"),("construction order","container/stdb_vector.hpp push_back, emplace_back, insert, assign, constructors")],None,["exceptions, contents, element and allocator events"])
p("V05","Unchecked fast paths equal their checked versions",
"Given sufficient reserved capacity, every unchecked variant (push, emplace, insert, fill, write buffer, uninitialised resize) has the same effect as the checked one and never writes outside the buffer. A checked write buffer extends the vector by exactly the requested amount, and a fill by exactly what its function reports as written (at most what it asked room for), over properly owned memory; both keep the existing elements, whatever the current size and capacity.",
["histories","inputs"],"all sizes, remaining capacities and request sizes",
"Tests use one or two fixed sizes starting from an almost empty vector.",
[VH],[("unchecked variants","container/stdb_vector.hpp Safety::Unsafe branches"),("bulk writes","container/stdb_vector.hpp get_writebuffer, fill")],None,["contents and spans, address sanitizer"])
p("V06","Range construction, assignment and insertion accept any source range",
"Building, assigning or inserting from a pair of iterators produces exactly the elements of the range converted to the element type, in order. This holds for pointers, contiguous, random-access but non-contiguous, reverse and forward iterators, for sources of other element types and for empty ranges.",
["inputs","programs"],"all source container kinds, element conversions, range positions and insertion points",
"Tests only use pointers and iterators of vectors of the same element type.",
[VH],[("range copy","container/stdb_vector.hpp copy_from_iterator, get_ptr_from_iter")],None,["contents after the operation"])
p("V07","Vector iteration and comparison agree with the standard vector",
"Iterating forwards, backwards and by index through mutable and constant iterators visits exactly the elements in order, iterator arithmetic and comparison agree with positions, and standard algorithms and ranges over the vector give the results they give on the standard vector. Equality and three-way comparison of two vectors are elementwise and lexicographic.",
["inputs","histories"],"all sizes (including empty), positions, and pairs of contents",
"Tests iterate a few fixed vectors.",
[VH],[("iterators","container/stdb_vector.hpp IteratorT"),("comparison","container/stdb_vector.hpp operator==, operator<=>")],None,["iteration results"])
p("O01","Command lines are parsed by the documented rules",
"For every set of registered options and every command line, arguments are consumed left to right: an option takes its value after '=' or from the next argument, a boolean option without a value records its action's value, an append option takes every following non-option argument and splits comma lists, a counter counts occurrences, and the last value of a store option wins. Options not given take their default and, lacking one, their environment variable; a non-boolean option without any value is an error. The resulting stored values equal this interpretation exactly.",
["inputs","configurations"],"all option sets (names, prefixes, actions, types, defaults, environment) and all argument vectors",
"Four fixed command lines are tested.",
[OC,OH],[("argument walk","optparse/optparse.cc parse_args, handle_opt, process_opt"),("values","optparse/optparse.hpp ValueStore")],None,["parsed values and exceptions"])
p("O02","Every argument is either consumed or returned, in order, untouched",
"Each command-line argument is either consumed by exactly one option or appears exactly once, in original order, among the unrecognised arguments, as the very pointer passed in. The reconstructed argument count and vector consist of the program name followed by exactly those arguments. No argument vector makes the parser read outside it.",
["inputs"],"all argument vectors and option sets",
"One test looks at the leftover arguments of one command line.",
[OC,OH],[("leftover bookkeeping","optparse/optparse.cc parse_args, handle_opt, invalid_args, get_raw_argc, get_raw_argv")],None,["leftover arguments, pointer identity, address sanitizer"])
p("O03","Parsers are reusable, copyable and movable without interference",
"Parsing the same command line again gives the same result, earlier results are unaffected by later parses, and leftovers always belong to the latest parse. A copied or moved parser parses like the original, on its own, also after the original is gone.",
["histories"],"all sequences of registering, parsing, copying, moving and destroying parsers",
"Every test parses once per parser and never copies one.",
[OC,OH],[("per-parse state","optparse/optparse.cc parse_args clearing leftovers, builtin options"),("option back reference","optparse/optparse.hpp Option")],None,["results across histories"])
p("O04","Option registration enforces names and conflicts",
"A name that does not start with the parser's prefix, an unsupported prefix, and, under the default policy, a name already taken are rejected with an error, and a rejected registration leaves the parser behaving as before it. Under the replace policy the newest registration of a name receives it while other names of the older option keep working. Incomplete options are reported as an error before anything is parsed.",
["histories","configurations"],"all sequences of registrations, prefixes and policies",
"Tests register only valid, distinct names.",
[OC,OH],[("registration maps","optparse/optparse.cc add_option, find_opt, extract_option_type"),("validation","optparse/optparse.cc Option::validate")],None,["exceptions and subsequent parses"])
p("O05","Typed option values are deterministic and typed as declared",
"The value stored for an option has the declared type and is the value the standard stream conversion gives for its text; text that starts with no number gives zero, never an unspecified value. A choice option only ever stores one of its choices, and a comma-separated list holds its parts in order, trimmed and without empty parts. A value store gives back exactly what was put under a key, refuses other types, and knows which keys were given.",
["inputs"],"all value texts (empty, blank, signed, overflowing, trailing garbage) for all types and actions",
"Only well-formed values are tested.",
[OC,OH],[("conversion","optparse/optparse.cc parse_string, parse_value, split, trim_string")],None,["stored values, memory sanitizer-style poisoning of stack"])
p("O06","Usage, help and version texts cover the registered options",
"Formatting usage, help and version succeeds for every parser, including one with no options. Help lists every registered option once, in registration order, with all its names, its type and its help text aligned in one column; usage names the program and every option; formatting never changes what is parsed.",
["configurations"],"all option sets, names and help texts",
"Help output is printed, not examined, by the tests.",
[OC,OH],[("formatting","optparse/optparse.cc format_usage, format_help, format_verison, format_opt_names")],None,["formatted text"])
p("L01","Alignment and size-literal arithmetic is exact",
"Rounding a size up to a power of two or to any block size gives the least multiple not below it whenever that is representable. Kilo-, mega- and gigabyte literals equal the number times the corresponding power of 1024.",
["inputs"],"all 64-bit sizes whose result is representable, all block sizes and powers of two from 8",
"Tests evaluate a few constants.",
["align/align.hpp","memory.hpp"],[("rounding","align/align.hpp AlignUpTo, AlignUp"),("literals","memory.hpp operator\"\"_KB/_MB/_GB")],None,["returned values"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
