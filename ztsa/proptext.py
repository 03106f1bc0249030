"""Text of the properties (source of properties.jsonl; tools/gen.py writes it)."""
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/libzt/' + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


ALLSRC = ['zt_cstr.c', 'zt_cfg.c', 'zt_cfg/cfg_private.c', 'zt_cfg/cfg_ini.c', 'zt_mem.c', 'zt_table.c', 'zt_set.c', 'zt_array.c', 'zt_ptr_array.c', 'zt_buf.c',
          'zt_bstream.c', 'zt_ipv4_tbl.c', 'zt_threads.c', 'zt_log/log_file.c', 'zt_log/log_private.c', 'zt_ez_mempool.c', 'zt_gc.c', 'zt_unit.c', 'zt_opts.c',
          'zt_path.c', 'zt_progname.c', 'zt_format.c', 'zt_base.c', 'zt_uuid.c', 'zt_sha1.c']

prop('M01', 'No call leaks what it acquired, on any path including every failure path',
     'Every library call either releases each memory block, open file and descriptor it acquired, or hands it on: returns it, or stores it where the caller or the library can still reach it. '
     'This holds on every path through the call, including each path on which an allocation, an open or a lookup fails part way. Daemonising is excepted: it opens the standard descriptors for the life of the process.',
     ['inputs', 'fault_sequences'], 'every public call, every argument value and pre-state, every subset of failing allocations and system calls',
     'Tests never make an allocation or fopen fail, and run without a leak checker; they reach one path per call.',
     ALLSRC, [('error unwinding in each constructor', 'zt_threads.c, zt_ipv4_tbl.c, zt_cfg.c, zt_mem.c, zt_cstr.c')])
prop('M02', 'Nothing is used after it was released, nor released twice',
     'No library call reads or writes memory, a stream or a descriptor that it has already released on the same path, releases the same thing twice, or releases storage that was never dynamically acquired. '
     'This includes loops that tear down a chain or an array of elements, where the link to the next element must be taken before the element is released.',
     ['inputs', 'histories', 'fault_sequences'], 'every public call, every argument value and pre-state, every failing allocation',
     'A use after free normally goes unnoticed in a plain test run, and the failure paths are never taken.',
     ALLSRC, [('destructors and iteration-safe removal', 'zt_cfg/cfg_private.c, zt_mem.c, zt_gc.c, zt_ez_mempool.c, zt_table.c')])
prop('M03', 'A pointer found to be null is never followed',
     'When a library call obtains a pointer that can be null (a failed allocation or open, an absent entry, a missing separator, an optional argument) it never reads or writes through it on the path where it is null. '
     'Every result of an allocation, open or search that can fail is therefore tested before it is used.',
     ['inputs', 'fault_sequences'], 'every public call, every failing allocation or lookup, every optional argument omitted',
     'Tests never make allocations fail and rarely pass absent entries.',
     ALLSRC, [('tests after each allocation and lookup', 'all modules')])
prop('M04', 'Fixed buffers and freshly sized blocks are never overrun or underrun',
     'Every access a library call makes to one of its own fixed-size buffers or tables, or to a block it has just allocated with a size it computed, lies inside that storage. '
     'In particular loop limits, terminators and size computations agree, for every input value and length.',
     ['inputs'], 'every public call, every argument value and input length',
     'Overruns need boundary lengths or values that the tests do not use, and they run without bounds instrumentation.',
     ALLSRC, [('size computations and loop limits', 'zt_cstr.c, zt_format.c, zt_path.c, zt_base.c, zt_sha1.c, zt_uuid.c, zt_log/log_private.c')])
prop('M05', 'Arguments passed as read-only are never modified',
     'A library call never writes to the memory it receives through an argument its interface declares as pointer to constant data: strings searched or split, buffers hashed, encoded or appended, keys, formats and paths. '
     'The caller may pass literals and shared data.',
     ['inputs'], 'every public call with an argument declared as pointer to const, every argument value',
     'Tests pass writable copies and do not compare them afterwards.',
     ['zt_cstr.h', 'zt_base.h', 'zt_sha1.h', 'zt_buf.h', 'zt_set.h', 'zt_hash.h', 'zt_path.h', 'zt_uuid.h', 'zt_cstr.c', 'zt_sha1.c'], [('const parameters', 'all headers')])
prop('M06', 'No call depends on uninitialised memory',
     'No library call reads a local variable, a local buffer or a block it has just allocated before it has been written on that path. Results therefore never depend on leftover memory contents.',
     ['inputs', 'fault_sequences'], 'every public call, every argument value, every failing call inside it',
     'Leftover memory is often zero in a short test run, so reads of it look right.',
     ALLSRC, [('initialisation before use', 'all modules')])
prop('M09', 'Run-time text never becomes a format string',
     'The format the library passes to a printf-style or syslog-style routine is a literal or table text of its own, the format its caller passed to a variadic entry point, or a composition of only these. '
     'Text from anywhere else (messages, names, paths, configuration values, the program or host name) is only ever printed as data, so a percent sign in it has no effect.',
     ['inputs'], 'every path to a printf-family call, every text',
     'Tests never log or print text that contains percent signs.',
     ['zt_log/log_private.c', 'zt_log/log_stderr.c', 'zt_log/log_file.c', 'zt_log/log_syslog.c', 'zt_opts.c', 'zt_unit.c', 'zt_format.c', 'zt_assert.c', 'zt_cstr.c'],
     [('composition of the log format', 'zt_log/log_private.c')])
prop('M10', 'Every started argument list is ended before the call returns',
     'On every path through every variadic entry point, an argument list that was started or copied is ended before the function returns, and is not started again while open.',
     ['inputs'], 'every path of every function that starts an argument list',
     'On the test platform an unended list has no visible effect.',
     ['zt_cstr.c', 'zt_log.c', 'zt_opts.c', 'zt_format.c', 'zt_mem.c', 'zt_unit.c'], [('va_start/va_copy/va_end', 'all variadic functions')])
prop('T01', 'No call goes round a loop without getting anywhere',
     'Whenever a library call goes round one of its loops, something the loop depends on has changed (a position, a count, a link followed, memory, or the outcome of an outside event), whatever path it took through the loop body. '
     'So no input, content or collision pattern makes a scan, a chain walk or a retry repeat the same step for ever.',
     ['inputs', 'histories'], 'every loop of every public call, every path through its body',
     'A test that hit such an input would hang, so none does; the inputs are the unusual ones.',
     ALLSRC, [('loop steps: link following, index updates, continue paths', 'all modules')])
prop('C06', 'Library calls keep no hidden process-wide state',
     'Apart from the operations that manage documented process-wide things (exit callbacks, the logging subsystem, the memory-pool registry, the program name and path, thread callback tables, format-conversion registration, clock calibration), '
     'no library call writes to static storage. Calls on distinct objects from different threads therefore never interfere, and no result is overwritten by a later call.',
     ['schedules', 'histories'], 'every public call, every path',
     'Tests are single threaded and look at a result before the next call.',
     ALLSRC, [('caller supplied contexts and buffers', 'all modules')])

prop('A01', 'Assertions only observe, and no allowed use fails one',
     'A program may be built with the library\'s assertions kept. The library then compiles, and does exactly what it does without them: evaluating an assertion changes nothing a program can see, and no assertion fails in a use the interface allows '
     '(running out of memory apart, which the allocation wrappers report by an assertion on purpose).',
     ['inputs', 'configurations', 'histories'], 'every assertion of the library, every use of the operations in the ways the other properties describe',
     'The tests are only built with the assertions left out.',
     ALLSRC, [('assertion conditions', 'zt_assert* in all modules'), ('assertion macros', 'zt_assert.h, zt_log.h')])
prop('I01', 'The library defines what its headers declare, for C and for C++',
     'Every function and object declared in an installed header is defined by the library, with the declared type and under the symbol a C and a C++ program each look for; every header compiles by itself, after the others and in any order with them, as C and as C++, '
     'whether or not assertions are kept and without the definitions of the library build.',
     ['programs', 'configurations'], 'every declaration of every installed header, both languages and their common versions',
     'Tests are C programs that include everything and call some of it.',
     ALLSRC, [('linkage and declarations', 'the installed headers'), ('definitions', 'the library units')])

# --- functional properties (lemma clients) ---
prop('F01', 'Intrusive lists, stacks and queues keep exactly what was linked, in order',
     'Adding an element to an intrusive list links it, in both directions, first (or last, when added at the tail) and leaves every other link alone; removing unlinks exactly that element; joining puts one list before another (an empty one changes nothing). '
     'A stack returns the last pushed element first and a queue the first enqueued; popping or dequeuing an empty one returns null, and peeking changes nothing.',
     ['inputs', 'histories'], 'every list length and position, every sequence of additions and removals',
     'Tests build one list of fixed length and visit it forwards.',
     ['zt_list.h', 'zt_stack.h', 'zt_queue.h'], [('link updates', 'zt_elist_* inline functions')])
prop('F02', 'Pair lists: push, pop, nth, reverse, split, merge and sort keep every item',
     'Pushing puts an item in front and popping takes it off again; nth counts from zero and is null past the end; reversal (copying or in place) yields the same items backwards; a split and a merge keep every pair exactly once, '
     'a merge of ordered lists is ordered, and sorting yields the same items in order.',
     ['inputs'], 'every list content and comparison outcome',
     'Tests sort one fixed list.', ['zt_llist.h', 'zt_llist.c'], [('recursive merge sort', 'zt_llist_sort, zt_llist_merge, zt_llist_split')])
prop('F03', 'String slices: substring, copy, duplicate, concatenate, reverse, map, compare',
     'A slice i..j names the characters from position i to position j inclusive; negative positions count from the end, positions beyond either end stop at it, and a reversed pair is swapped; a slice of an empty string is empty. '
     'Substring, copy, duplication, concatenation, reversal and mapping yield exactly the characters of the slices, ending there; a copy writes no more than the room given and counts what it wrote; '
     'mapping replaces exactly the mapped characters; comparison orders slices by their first unequal character, then by length.',
     ['inputs'], 'every string, every pair of positions inside and beyond it', 'Tests use a few strings and positions; boundaries decide.',
     ['zt_cstr.c', 'zt_cstr.h'], [('index conversion', 'IDXLEN, CONVERT in zt_cstr.c')])
prop('F10', 'String searches return the first or last match inside the slice',
     'A forward search for a character, for one of a set of characters, or for a string returns the lowest position of a match that lies inside the slice, a backward search the highest; '
     'string and set searches return -1 when there is no match, including for an empty or a longer string to look for and for an empty string to search.',
     ['inputs'], 'every string, slice and pattern', 'Tests search a handful of patterns; boundary matches at both slice ends are not among them.',
     ['zt_cstr.c'], [('search loops', 'zt_cstr_chr/rchr/upto/rupto/any/rany/find/rfind')])
prop('F11', 'Hexadecimal and decimal text stand for their values',
     'Encoding bytes in hexadecimal writes two lower case digits per byte and no terminator, stopping at the room given; decoding accepts exactly hexadecimal digits of either case in pairs and restores the bytes. '
     'The decimal text of an integer, written at an offset, is its exact decimal form for every int, its predicted display length is exact, and too little room is refused.',
     ['inputs'], 'every byte, every character, every int', 'Tests convert a few values.', ['zt_cstr.c'], [('digit tables and digit counting', 'zt_binary_to_hex, zt_hex_to_binary, zt_cstr_itoa, zt_cstr_int_display_len')])
prop('F12', 'Splitting, cutting, tokenising, trimming and path names',
     'Splitting yields the maximal runs of characters without a delimiter, in order; cutting yields the remainder from (or after) each delimiter; tokenising from the right yields the text up to each delimiter. '
     'Strip removes exactly the outer white space (a newline in the trailing white space stays as one, and none is added), chomp exactly one newline at the end; the span from the right counts the trailing characters of a set, and its complement finds the last such character. Base and directory names are what follows and precedes the last separator (a plain name is in ".", one in the root directory in "/"); separators at the end belong to neither and a suffix is only removed from the end of a longer name; '
     'joining two paths leaves exactly one separator between them (also below the root directory; joined to an empty path, the second stays as it is), and a path is absolute when it starts with the separator or with "./".',
     ['inputs'], 'every string and delimiter set', 'Tests use a few well formed strings.', ['zt_cstr.c', 'zt_path.c'], [('scanning loops', 'zt_cstr_split/cut/tok/strip/chomp/basename/dirname/path_append/abspath')])
prop('F04', 'Base 16, 32 and 64 encodings follow the standard and decode to the input',
     'Encoding yields, for every input of every length, exactly the characters whose alphabet positions are the successive bit groups, padded as the standard prescribes, with exactly the standard size; decoding restores every byte and the length. '
     'White space is skipped; a character outside the alphabet and an incomplete group are refused; without an output the size needed is reported, and too little room is refused and the size reported without writing more.',
     ['inputs'], 'every byte sequence of every length', 'Tests use the vectors of the standard only.', ['zt_base.c', 'zt_base.h'], [('bit regrouping and alphabet tables', 'zt_base_encode, zt_base_decode, the dictionaries')])
prop('F05', 'Arrays and pointer arrays keep their elements through every operation',
     'An array holds exactly what was last put at each index; growing adds zeroed elements and keeps the others, shrinking keeps the first ones, a copy is equal and independent, and building from data or a string has their contents. '
     'A pointer array keeps added pointers in order, grows when full, finds the last one at index -1, removes exactly the one asked for (handing it to the callback once), and refuses null pointers, indexes outside the array and moves outside.',
     ['inputs', 'histories'], 'every length, index and sequence of operations', 'Tests do a few fixed operations.', ['zt_array.c', 'zt_ptr_array.c'], [('growth and removal', 'zt_array_*, zt_ptr_array_*')])
prop('F06', 'A buffer is a byte queue',
     'Bytes leave a buffer in the order they were added, whether added from memory, from a vector or by appending a buffer; removing or draining takes the first bytes, never more than there are, and keeps the rest; '
     'expanding or reserving makes the room asked for and keeps the bytes; an addition or expansion that fails for lack of memory changes nothing.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of additions and removals, every size, failing allocation', 'Tests add and drain once.', ['zt_buf.c'], [('offset and size accounting', 'zt_buf_expand, zt_buf_add, zt_buf_drain')])
prop('F07', 'A byte stream returns values as written, in either byte order',
     'Values of every size written to a byte stream are read back as written and take their size in the stream, in the byte order of the machine or, when flipped, in the opposite one; overwriting changes only the bytes written, writing past the end keeps what was there, '
     'rewinding returns the former offset, truncation empties, and a clone has contents, position and byte order and is independent.',
     ['inputs', 'histories'], 'every value, size, offset and sequence of reads and writes', 'Tests write a few values in one order.', ['zt_bstream.c'], [('byte order and offsets', 'zt_bstream_read/write/rewind')])
prop('F08', 'A table is a finite map, whatever the hash function and bucket placement',
     'A table finds under each key exactly the datum stored under it and nothing else, whichever keys share a bucket or a hash value; storing under a present key is refused unless duplicates are allowed, deleting removes exactly that entry and returns its datum, '
     'iteration visits every entry once with its lengths and stops when the callback says so with its result, copying adds what the target lacks, and this holds for every initial size. Ready-made comparisons and hashes agree: equal keys hash equal.',
     ['inputs', 'histories', 'fault_sequences'], 'every key, hash function, collision pattern, size hint and operation sequence', 'Tests use well distributed hashes, so chains are rarely longer than one.', ['zt_table.c', 'zt_hash.c'],
     [('bucket selection and chain updates', 'zt_table_set/get/del/copy/for_each')])
prop('F09', 'Sets obey set algebra',
     'After any insertions and removals exactly the elements inserted and not removed are members, the length is their number and an iteration visits each once. Union, intersection and difference yield exactly the elements they should (added to what the target holds) and leave their operands alone; '
     'subset and equality tests decide exactly that; destruction hands each element to the destructor once.',
     ['inputs', 'histories'], 'every pair of sets', 'Tests combine one pair of sets and stop at the first element.', ['zt_set.c'], [('iteration callbacks', '_union, _intersect, _difference, _is_subset, _find_len')])
prop('F13', 'Red-black trees stay ordered and balanced, and find exactly what they hold',
     'After any sequence of insertions and removals every node points back to its parent, smaller keys are to the left and larger to the right, no red node has a red parent, the root is black, every way down passes the same number of black nodes, and exactly the nodes inserted and not removed are there. '
     'A key is found exactly when present, the nearest search returns the first node not below the key, iteration visits all nodes in order and ends, and inserting a present key returns its node and changes nothing.',
     ['inputs', 'histories'], 'every order of insertions and removals', 'Tests insert one random sequence and only iterate; imbalance and wrong parent links go unnoticed.', ['zt_tree.c', 'zt_tree.h'],
     [('rotations and colour repair', 'zt_rbt_insert_colour, zt_rbt_remove_colour'), ('successor replacement', 'zt_rbt_remove')])
prop('F14', 'Hashes are FNV-1a, continue across pieces and fold into the range',
     'The 32 and 64 bit hash of a block is its FNV-1a hash from the standard offset when the start value is zero and from the start value otherwise; a string hashes as the block of its characters up to the terminator; '
     'hashing the pieces of a block one after the other gives the hash of the whole wherever it is cut; folding to fewer bits xors the upper bits into the lower and the result for fewer than 16 bits is below the size of the range.',
     ['inputs'], 'every block, cut and start value', 'Tests compare the string and block form of one word.', ['zt_hash.c', 'zt_hash.h'], [('byte loop and constants', 'zt_hash32_buff/cstr, zt_hash64_buff/cstr, ZT_HASH_SUB32_MASK')])
prop('F15', 'Time arithmetic is exact and normalised; measurements take the overhead off',
     'For normalised times the sum and the difference are exact, have 0 to 999999 microseconds, leave their operands alone unless a result replaces one (which gives the same), and undo each other; comparison orders times by seconds, then microseconds. '
     'Measuring a function calls it as often as asked with its data, yields its last result and the user and system time spent less the calibrated overhead; calibrating again replaces the overhead. A pause asked for (usleep) lasts that many microseconds, whatever expression asks for it.',
     ['inputs'], 'every pair of times, clock reading and carry or borrow', 'Tests only add times without a carry.', ['zt_time.c'], [('carry and borrow', 'zt_add_time, zt_sub_time, zt_diff_time, zt_cmp_time'), ('overhead accounting', 'zt_time, zt_time_calibrate')])
prop('F16', 'Exit callbacks run once each, last registered first',
     'The first registered callback makes the library register with the system, no callback runs before exit, and at exit every callback runs exactly once, in reverse order of registration, with the data it was registered with; a callback registered by a running callback runs too.',
     ['histories'], 'every sequence of registrations', 'Tests register callbacks but their order at exit is not compared.', ['zt_atexit.c'], [('callback stack', 'zt_atexit, its exit handler')])
prop('F17', 'Garbage collection releases exactly the unreachable objects, once',
     'A collection releases no registered object reachable from a protected one and releases each unreachable one exactly once with the private data; marking, protecting or moving references at any point of an incremental scan (announced by a mark) loses nothing; what is unreachable for a whole cycle is released by the next. '
     'Collections start after the set number of registrations, disabling nests and enabling makes up for a due collection, unregistered objects are left alone, and destroying releases each registered object once.',
     ['histories'], 'every reachability graph and phase of the incremental scan', 'Tests run one heap shape with full collections.', ['zt_gc.c'], [('two colour scan', 'zt_gc_scan, zt_gc_mark, zt_gc_protect, _swap, _release')])
prop('F18', 'The generator is MT19937',
     'Seeding gives the MT19937 initial state for every seed, keyed seeding that of init_by_array for every key length (shorter and longer than the state), each value drawn is the tempered state word, and drawing across block boundaries follows the MT19937 stream; '
     'seeding again restarts the stream, contexts do not disturb each other, and an unseeded generator seeds itself.',
     ['inputs', 'histories'], 'every seed and state word, streams beyond two blocks', 'Tests only check that values are drawn.', ['zt_random.c'], [('state recurrence and tempering', 'zt_random_srandom, zt_random_initstate, zt_random_uint32')])
prop('F19', 'SHA-1 digests are those of FIPS 180, however the message is cut',
     'The digest of a message of any length is its SHA-1, the padding boundaries (55, 56, 63, 64 bytes and beyond) and the carry of the bit count included, pieces of four gigabytes and more too; hashing it in pieces gives the digest of the whole wherever it is cut; hashing leaves the message alone, finishing wipes the state; '
     'the text of a digest is terminated hexadecimal and reads back as the digest.',
     ['inputs'], 'every message and way of cutting it', 'Tests use the standard vectors, cut in one way.', ['zt_sha1.c'], [('buffering and padding', 'zt_sha1_update, zt_sha1_finalize'), ('block function', '_sha1_transform'), ('text form', 'zt_sha1_tostr, zt_str_tosha1')])
prop('F20', 'UUIDs carry their version and read back from every text form',
     'A random uuid has version 4 and the RFC 4122 variant and otherwise the drawn bits of a generator each thread has of its own, seeded once and not like that of a thread starting at the same time; a name based uuid has version 5, that variant, and otherwise the SHA-1 of name space and name. The standard, short and base 62 forms have their fixed lengths, are valid in their form and no other, '
     'and read back as the same uuid; other characters, lengths and groupings are neither valid nor read, nor is a base 62 text beyond the largest uuid read; too little room is reported and nothing written. Comparison takes every byte into account.',
     ['inputs', 'schedules'], 'every uuid and text', 'Tests convert fixed uuids in one thread.', ['zt_uuid.c'], [('bit layout', 'zt_uuid4, zt_uuid5'), ('text forms', '_zt_uuid_fillstr, zt_uuid_fromstr, zt_uuid_isvalid')])
prop('F21', 'A message is logged exactly when its level is enabled, as asked, where asked',
     'A message is written, exactly once and as formatted, when its level is not above the logger\'s limit and otherwise not at all; it goes to the logger it names or the default one, which is always there, also after it was closed. '
     'The asked for date, host, program, process id and level precede it in that order; the noted place in the source follows that one message and no other and no other thread\'s; text with per cent signs is written as it is. '
     'Files are opened to append or afresh as asked and closed once, the system log gets each level\'s priority, and no operation returns holding a lock.',
     ['inputs', 'histories', 'schedules'], 'every level, limit, option set and sequence of logger changes', 'Tests log a few messages and compare nothing.', ['zt_log.c', 'zt_log/log_private.c', 'zt_log/log_file.c', 'zt_log/log_stderr.c', 'zt_log/log_syslog.c'],
     [('level test and place', 'zt_log_lvprintf, zt_log_lvstrerror'), ('prefix composition', 'zt_log_gen_fmt'), ('default logger', 'zt_log_get_logger, zt_log_set_logger, zt_log_close')])
prop('C01', 'The thread pool handles every item once, in order, and ends all its threads',
     'Items leave each queue of a pool in the order they were inserted and exactly once; the queues and the end flag are only touched under their lock, no operation keeps a lock, and a waiting thread gives up exactly the lock of its queue. '
     'Every insertion wakes a waiter and tells the pipe; killing raises the flag before it wakes every waiter under their lock, so none sleeps on; items still queued are worked on before the threads end, and every started thread is waited for once. '
     'A pool that lacks memory, a lock, a condition or a pipe is not handed out, and what was made for it is released.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving (by lock discipline), every moment of a kill, every failing allocation', 'Tests run two threads with one schedule and never kill a busy pool.', ['zt_threads.c'],
     [('queue operations', 'zt_threadpool_insert_iput/oput, get_oput'), ('loops', 'the default input and output loops'), ('shutdown', 'zt_threadpool_kill')])
prop('C02', 'Thread primitives do exactly what the installed set does',
     'Locks, conditions and threads pass every request with its arguments to the installed functions and return their answer; without a set they succeed and do nothing; an incomplete set is refused and leaves the former one in place. '
     'With the system\'s threads, blocking waits and non blocking tries for the lock, a signal wakes one and a broadcast all, a bounded wait ends after the given time from now and tells a timeout from a failure, and what cannot be initialised is not handed out.',
     ['inputs', 'fault_sequences'], 'every request, every answer of the system', 'Tests only use the system\'s threads and successful answers.', ['zt_threads.c', 'zt_threads/zt_threads_pthreads.c'],
     [('dispatch', 'zt_threads_* wrappers'), ('binding', 'zt_threads_pthreads.c')])
prop('F22', 'A memory pool hands out each block once and releases only free pages',
     'Blocks handed out by a pool are distinct, keep their contents until given back, and are handed out again before another page is made. A page is released only when all its blocks are back: by default, when the pool\'s test wants it, or on demand, which releases exactly the free pages; the counts of pages made, present and freed add up. '
     'A pool is found by its name until destroyed, one in use is not destroyed, a group has a pool of each description and serves a size from the first that is large enough, and a pool or group that cannot be made leaves nothing.',
     ['histories', 'fault_sequences'], 'every sequence of allocations and releases, every failing allocation', 'Tests allocate and release in one order from one pool.', ['zt_mem.c'],
     [('free lists and page counts', 'zt_mem_pool_alloc, zt_mem_pool_release, zt_mem_pool_release_free_pages'), ('groups', 'zt_mem_pool_group_init/alloc/destroy')])
prop('F23', 'An ez pool releases all it holds, once, each in its own way',
     'Blocks of an ez pool are zeroed and keep their contents while the pool lives; destroying it releases every block it made, hands memory given to it with a function to that function once and frees the rest, and does the same for the pools made below it, leaving others alone, in whatever order pools are destroyed.',
     ['histories'], 'every tree of pools and order of destruction', 'Tests destroy one pool with one below it.', ['zt_ez_mempool.c'], [('ownership lists', 'zt_ez_mempool_alloc, _add_buffer, _init, _destroy')])
prop('F24', 'An address is found exactly when a network of the table contains it',
     'Searching a table finds a network that contains the address or network asked for, and nothing exactly when none does, whatever the size of the table, the extents and the order of insertion; a network of everything contains everything. '
     'Text is read as address and prefix length (32 without one, at most 32); what is not of that form, negative or missing lengths included, is refused and leaves nothing behind, as does a failing allocation; searches leave nothing behind.',
     ['inputs', 'histories', 'fault_sequences'], 'every set of networks, address and text', 'Tests insert a fixed list into one table and look up addresses of it.', ['zt_ipv4_tbl.c'],
     [('per-length buckets and containment', 'zt_ipv4_tbl_add_node, zt_ipv4_tbl_search_node, ipv4_tbl_addr_cmp'), ('text', 'zt_ipv4_str2net')])
prop('F25', 'Command line options reach their handlers, once, in order, with their values',
     'Each short, clustered or long option word before the first other word is handled by its definition once and in order, words taken as values are passed over, the count becomes the place where processing ended, an unknown option is complained of once and a failing handler ends the processing with its result. '
     'A value is what follows the equals sign, the letter or is the next word; numbers, truth values, flags, strings and string lists are stored exactly, and what is none is complained of. Definitions at fault are found before anything is processed; help gives each option\'s text in full in its column within 80 columns.',
     ['inputs'], 'every command line and set of definitions', 'Tests process one command line of valid options.', ['zt_opts.c'],
     [('option walk', 'zt_opt_process_args'), ('value forms', 'zt_opt_get_value and the zt_opt_* handlers'), ('help layout', '_zt_opt_help_stdout_printer')])
prop('F26', 'Configuration values are read back as the file and later settings give them',
     'A value is found under the block and name it was given in (the global block before the first), with the kind its text has (number, real number, truth value or text, quoted or not) and under no other kind, name or block; comments, blank space and empty lines are skipped, the last of several settings counts, and the last line needs no end. '
     'A reference gives the value it refers to, also after that is set again, and never refers to itself. A line that is no setting makes the whole file refused; the file is closed, and closing the configuration or refusing a file leaves nothing.',
     ['inputs', 'histories', 'fault_sequences'], 'every file and sequence of settings', 'Tests read one file.', ['zt_cfg.c', 'zt_cfg/cfg_ini.c', 'zt_cfg/cfg_private.c'],
     [('line grammar', 'parse_file, parse_line, parse_block'), ('kinds and references', 'get_type, cfg_insert_bvv, zt_cfg_priv_get')])
prop('F27', 'Formatted output is what the conversions of C give, within its room',
     'For integers, unsigned, hexadecimal and octal numbers, characters, strings and real numbers, with flags, width and precision given in the text or as arguments, the library\'s formatting gives the text and length of C\'s; either of its two conversion characters starts a conversion and doubled stands for itself. '
     'Into a buffer it writes as much as there is room for, with an end and nothing beyond; into memory of its own the whole. Each character is passed on once, as unsigned, in order, and those taken are counted; conversions of one\'s own get letter, value, flags, width and precision and may be replaced and put back.',
     ['inputs'], 'every format, value and room', 'Tests format two lines.', ['zt_format.c'], [('directive parsing', 'zt_fmt_vformat'), ('padding and sign', 'zt_fmt_putd, zt_fmt_puts'), ('sinks', 'zt_fmt_insert, zt_fmt_append')])
prop('F28', 'Directories are made, found and looked for on PATH as asked',
     'Making a directory succeeds exactly when it is there afterwards; with parents asked for, exactly the missing ones are made, each with the mode given (a parent that someone else makes meanwhile is there, too), and without, none; a failure or a path that is too long is told. The longest directory above a path that holds a name is found. '
     'A program\'s directory is that of its path, from the working directory when relative, or the first on PATH, the last included, that holds it; name and directory stay until set again.',
     ['inputs', 'fault_sequences', 'schedules'], 'every path and state of the directories', 'Tests make one directory.', ['zt_path.c', 'zt_progname.c'],
     [('parent creation', 'zt_mkdir'), ('upward search', 'zt_find_basedir'), ('PATH search', 'zt_progpath')])
prop('F29', 'The test runner runs each test once and reports exactly what failed',
     'Each registered test runs once, in order, between its suite\'s setup and teardown and with its data, also when a test before it failed; the run fails exactly when a test did or a name is unknown. Successes, failures, assertions, exceptions and empty tests are counted. '
     'A suite or test named runs alone, an unknown name runs nothing; listing runs nothing and names all in order; a failed test is named with its error. Names are the runner\'s own.',
     ['inputs', 'histories'], 'every set of suites, outcome of tests and command line', 'The tests are run by it: a runner that hides failures passes them.', ['zt_unit.c'],
     [('suite and test walk', 'zt_unit_run_suite, zt_unit_run_test'), ('names', 'zt_unit_run_by_name, str_split')])
prop('F30', 'Checked integer arithmetic is exact or stopped',
     'The checked additions, subtractions, multiplications and divisions of each integer type give the exact result, and with assertions kept stop the program exactly when the result cannot be represented in the type.',
     ['inputs'], 'every pair of numbers with one side at a limit, small or small and negative', 'Tests add, subtract and multiply a few numbers with assertions compiled out.', ['zt_int.h'],
     [('signed and unsigned forms', 'ZT_INT_SIGNED_ADD and its siblings')])
prop('F31', 'A hex dump shows every byte, line by line, and stops when told',
     'A dump hands the printer each line of sixteen bytes and the last short one once, in order, with its address, the bytes in hexadecimal and the characters or dots for them, then the end; it returns the number of bytes, and a printer that fails ends it at once with that told. The printed lines have the text in one column.',
     ['inputs'], 'every text of bytes and printer', 'No test dumps anything.', ['zt_cstr.c'], [('line filling', 'zt_hexdump'), ('byte source', '_read_str'), ('layout', 'zt_hexdump_default_printer')])
prop('F32', 'A daemon is detached and a pid file holds its number or is told to fail',
     'Only the second child goes on after turning into a daemon: in a session of its own, every descriptor closed, input, output and errors on the null device, in the directory and with the mask asked for; the first parent waits and each other process ends, with a code when a step failed. '
     'A pid file is made readable by all and holds the number and a line end; interrupted writes are taken up again, any failure is told and the file is closed.',
     ['inputs', 'fault_sequences'], 'every failing or interrupted call', 'No test starts a daemon.', ['zt_daemon.c'], [('double fork', 'zt_daemonize'), ('pid file', 'zt_writepid')])
prop('F33', 'Memory, assertions and small arithmetic keep their word',
     'Memory asked for is there, cleared, kept or copied as asked, with all of its size; a failed assertion is told with its text, file, line and function and ends the program or returns as its kind says, and one that holds does nothing. Least, greatest, clamped and absolute values, columns of indentation, single bits and the way from an element to its container are exact.',
     ['inputs'], 'every number, size and text', 'Tests use single values.', ['zt_malloc.c', 'zt_assert.c', 'zt_macros.h'], [('wrappers', 'zt_malloc_p and its siblings'), ('assertion text', '_zt_log_assertion, _zt_log_abort'), ('macros', 'MIN, MAX, CLAMP, ABS')])
