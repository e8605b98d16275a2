"""Property texts: the source of properties.jsonl (python3 gen.py)."""
ALL = []


def P(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    ALL.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                    "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                    "observe_at": observe or [], "hook_needed": None},
    })


# --------------------------------------------------------------- buffer ---
P("B01", "Buffer decoding of untrusted bytes never leaves the readable data",
  "Whatever bytes a buffer holds and whatever positions or lengths (including ones decoded from the data itself, up to the largest 64-bit value) are passed to its get/peek/set/position functions, no memory outside the buffer is read or written and the read position never passes the write position nor the write position the capacity. A request that does not fit marks the buffer invalid and returns zero or NULL; fixed-size requests then move no position (a refused string or blob may stay behind its length field). A returned string is terminated inside the readable data.",
  ["inputs"], "all buffer contents, all 64-bit positions and lengths, all combinations of read and write position",
  "The tests decode what they themselves encoded, with small lengths; the overflow and boundary cases need specific 64-bit values.",
  ["buffer/sc_buf.c", "buffer/sc_buf.h"],
  [("bounds checks before every access", "sc_buf.c: *_pos helpers, sc_buf_get_str/blob/data, sc_buf_peek_data, sc_buf_set_data"),
   ("sticky error flag", "sc_buf.c: b->err")],
  ["return values, sc_buf_valid, sc_buf_rpos, sc_buf_wpos"],
  [("rpos/wpos/cap", "read position <= write position <= capacity", "sc_buf.h struct sc_buf")])
P("B02", "Buffer encode/decode round trip and wire layout",
  "Every value put into a buffer (bool, 8/16/32/64-bit integers, double, strings, NULL string, formatted strings, blobs, raw bytes) is read back identically, in order, by the matching get functions, whatever the start position and however the buffer grew meanwhile. Integers are little-endian, strings are an 8-byte length, the bytes and a terminating nul, and the encoded-length helpers report exactly the number of bytes written. Peeking returns what the matching get would return and moves nothing; set-at-position overwrites exactly the addressed bytes.",
  ["inputs", "histories"], "all values of each type, all start offsets, sequences of puts followed by gets",
  "Round trips are tested for a handful of constants; byte order and boundaries between values only for those.",
  ["buffer/sc_buf.c", "buffer/sc_buf.h"],
  [("shift-based serialisation", "sc_buf.c: peek_*_pos / set_*_pos"), ("length prefix", "sc_buf.c: put_str, put_str_len, put_fmt, put_blob")],
  ["bytes of the buffer and values returned by get"])
P("B03", "Buffer growth, limits and errors never lose or corrupt stored data",
  "Reserving, growing, compacting, shrinking, moving data between buffers and appending text never change the unread bytes, never exceed the configured limit and never resize or free memory the buffer only wraps; after a successful reserve the promised space exists. When memory or the limit runs out the buffer becomes and stays invalid until cleared, what was stored before is still there and nothing is written past the capacity. Text appended with put_text forms one nul-terminated concatenation; a put_text that fails leaves a valid (possibly empty) text.",
  ["inputs", "histories", "fault_sequences"], "all positions, capacities, limits, requested lengths (any 64-bit value) and allocation failures",
  "Tests make the allocator fail at a few fixed points and use small lengths.",
  ["buffer/sc_buf.c"],
  [("growth policy and limit", "sc_buf.c: sc_buf_reserve"), ("compaction", "sc_buf.c: sc_buf_compact, sc_buf_shrink"), ("move", "sc_buf.c: sc_buf_move"),
   ("two-pass formatting", "sc_buf.c: sc_buf_put_fmt, sc_buf_put_text")],
  ["buffer contents, sc_buf_valid, sc_buf_cap, allocator calls"])
# ------------------------------------------------------------------ map ---
P("M01", "Map behaves as a dictionary for every history of operations",
  "After any sequence of put, get, del, clear and iteration, an integer-keyed map holds exactly the last value put for each key not deleted since: get, put and del report presence and return the current or previous value accordingly, the size is the number of keys, and iteration yields each pair exactly once. This holds for every key including zero, for keys that collide, and across automatic growth and any initial capacity or load factor.",
  ["histories", "inputs"], "all operation sequences up to the bound over all 32/64-bit keys and values, arbitrary occupied tables as start states for one operation",
  "Tests use sequential or random keys; collision chains that wrap around the table and are cut by deletions need chosen hashes.",
  ["map/sc_map.c", "map/sc_map.h"],
  [("open addressing with linear probing", "sc_map.c: sc_map_put/get"), ("backward-shift deletion", "sc_map.c: sc_map_del"), ("growth", "sc_map.c: sc_map_remap"), ("out-of-band zero key", "sc_map.c: used flag / index 0")],
  ["sc_map_found, sc_map_size, returned values, sc_map_foreach"])
P("M02", "String-keyed maps compare keys by content",
  "String-keyed maps find a key through any other copy of the same string, distinguish different strings even when their hashes coincide or one is a prefix of the other, handle the NULL key and the empty string as distinct ordinary keys, and obey the same dictionary semantics as integer maps. Hashing a key reads exactly its bytes.",
  ["inputs", "histories"], "all strings up to the length bound, all operation sequences up to the bound",
  "Tests use distinct generated strings whose full hashes practically never coincide.",
  ["map/sc_map.c", "map/sc_map.h"],
  [("key comparison", "sc_map.c: sc_map_str_cmp / hash cache"), ("string hash", "sc_map.c: murmurhash")],
  ["sc_map_found, sc_map_size, returned values"])
P("M03", "A map that runs out of memory stays intact",
  "When growth fails, the put that needed it is reported through the out-of-memory indicator, changes nothing else, and every pair stored before is still found with its value; the indicator is cleared by the next successful put, and initialisation either succeeds or reports failure for every capacity value. Terminating a map, after failures or not, releases everything exactly once.",
  ["fault_sequences", "histories", "inputs"], "every allocation of every operation sequence up to the bound may fail; every 32-bit capacity and load factor",
  "Tests fail one allocation in one situation.",
  ["map/sc_map.c", "map/sc_map.h"],
  [("allocate before switching tables", "sc_map.c: sc_map_remap"), ("capacity rounding", "sc_map.c: sc_map_alloc")],
  ["sc_map_oom, sc_map_found, allocator balance"])
# ------------------------------------------------- heap array queue list ---
P("H01", "Heap always yields a minimum and loses nothing",
  "After any sequence of additions and removals, peek and pop answer exactly when the heap is not empty and return an element with the smallest key, pop removes exactly that element, keys stay with their data, and the size is the number of stored elements. An addition fails only when memory runs out and then changes nothing; the heap remains usable.",
  ["histories", "inputs", "fault_sequences"], "arbitrary heap-ordered contents with arbitrary 64-bit keys as start state of one operation, histories from init, every allocation failing",
  "Tests push fixed permutations; ties, extreme keys and failing growth in the middle of a history are not sampled.",
  ["heap/sc_heap.c", "heap/sc_heap.h"],
  [("sift up / sift down", "sc_heap.c: sc_heap_add, sc_heap_pop"), ("growth", "sc_heap.c: sc_heap_add")],
  ["sc_heap_pop, sc_heap_peek, sc_heap_size"], [("elems[1..size]", "1-based implicit binary heap", "sc_heap.h")])
P("A01", "Array behaves as a sequence across growth, deletion, sorting and failure",
  "An array holds exactly the elements added and not deleted, in order: element access, last, size, iteration, ordered deletion, unordered deletion, last deletion, clearing and sorting agree with a plain sequence. An addition that cannot get memory is reported, changes nothing, and later additions work again.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to the bound, all element values, every allocation failing",
  "Tests follow a few fixed sequences.",
  ["array/sc_array.h"],
  [("growth macro", "sc_array.h: sc_array_add"), ("deletion macros", "sc_array.h: sc_array_del, sc_array_del_unordered")],
  ["element values, sc_array_size, sc_array_oom"])
P("Q01", "Queue behaves as a double-ended sequence across wrap-around and growth",
  "A queue holds exactly the elements added at either end and not removed, in order, wherever the ring's seam lies: peeking, removing from either end, indexing, iteration, size and emptiness agree with a plain double-ended sequence. An addition that cannot get memory is reported and changes nothing; once there is room additions work again.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to the bound from every ring position, all element values, every allocation failing",
  "Wrap-around combined with growth and with additions at both ends depends on the alignment of head and tail, which tests sample at a few positions.",
  ["queue/sc_queue.h"],
  [("ring indices masked by capacity", "sc_queue.h: sc_queue_inc/dec"), ("growth that unrolls the ring", "sc_queue.h: sc_queue_expand")],
  ["element values, sc_queue_size, sc_queue_oom"])
P("L01", "Linked list operations keep one consistent sequence in both directions",
  "After any sequence of additions at either end or beside an element, removals, pops and clearing, walking the list forwards and backwards yields exactly the same elements in mirrored order, emptiness and counts agree, and a removed element is detached so that removing it again is harmless. Safe iteration tolerates removal of the current element.",
  ["histories"], "all operation sequences up to the bound over a pool of nodes and two lists",
  "Tests walk one or two fixed sequences.",
  ["linked-list/sc_list.c", "linked-list/sc_list.h"],
  [("circular doubly linked list with sentinel", "sc_list.c"), ("iteration macros", "sc_list.h")],
  ["iteration order, return values"])
# --------------------------------------------------------------- string ---
P("S01", "Length-prefixed strings hold exactly what was put into them",
  "Creating, duplicating, setting, appending and formatting strings, with or without explicit lengths and NULL arguments, yields exactly the specified bytes, always nul-terminated, with the stored length equal to the byte count; comparison is true exactly for equal contents. When memory runs out the operation reports failure and the previous string is untouched and still owned by the caller.",
  ["inputs", "fault_sequences"], "all contents up to the bound, all 32-bit lengths, every allocation and formatting step failing",
  "Tests use fixed words and fail single calls.",
  ["string/sc_str.c", "string/sc_str.h"],
  [("length header before the characters", "sc_str.c: struct sc_str"), ("replace-then-destroy", "sc_str.c: sc_str_set, sc_str_append")],
  ["string bytes, sc_str_len, return values, allocator balance"])
P("S02", "Tokenising a string yields its split and restores it",
  "Iterating tokens visits exactly the pieces between delimiter characters, in order, including empty ones, and when the iteration has run to its end, or is ended explicitly, the string has its original bytes again. No byte outside the string is touched.",
  ["inputs"], "all strings and delimiter sets up to the bound, every stopping point",
  "Tests tokenise a few constants.",
  ["string/sc_str.c"],
  [("save and swap of one byte", "sc_str.c: sc_str_token_begin, sc_str_token_end")],
  ["returned tokens, string bytes"])
P("S03", "Trim, substring and replace equal their textbook definitions",
  "Trimming removes exactly the leading and trailing characters of the given set, substring yields exactly the requested range or reports an out-of-range request, and replace substitutes every non-overlapping occurrence from left to right for any pattern and replacement (an empty pattern matches nowhere, an empty replacement deletes). Each terminates, and on failure for lack of memory leaves the string as it was.",
  ["inputs", "fault_sequences"], "all strings, sets, ranges, patterns and replacements up to the bound, every allocation failing",
  "Tests use a few constants; overlapping and empty patterns are missing.",
  ["string/sc_str.c"],
  [("in-place move", "sc_str.c: sc_str_trim, sc_str_substring"), ("two-pass replace", "sc_str.c: sc_str_replace")],
  ["string bytes, return values"])
# ---------------------------------------------------------------- timer ---
P("T01", "Every timer fires exactly once, never early, unless cancelled",
  "For any sequence of additions, cancellations and non-decreasing poll times, each timer fires exactly once with the type and data it was added with, never before its due time (the clock value last given to the timer plus the timeout), and no later than the first poll at which the clock is one tick (16 ms) past it; cancelled timers never fire and cancelling clears the caller's handle. Timers added or cancelled from inside a callback, and growth of the timer table, obey the same rule.",
  ["histories", "inputs", "schedules"], "all timeouts and clock advances within the bound, sequences of add/cancel/poll up to the bound, additions inside callbacks",
  "Tests use a fixed clock pattern; slot collisions, wrap-around of the wheel and growth at particular phases are not sampled.",
  ["timer/sc_timer.c", "timer/sc_timer.h"],
  [("timer wheel", "sc_timer.c: sc_timer_add, sc_timer_timeout"), ("wheel expansion", "sc_timer.c: expand"), ("cancel", "sc_timer.c: sc_timer_cancel")],
  ["callback invocations"])
P("T02", "Timer polling advice and failure handling are sound",
  "The delay a poll returns is at most one tick (16 ms), so a caller that sleeps for it between polls sees every timer at most one tick after the poll that could have fired it, and polling early or late loses, repeats or delays no timer. An addition that cannot get memory or exceeds the maximum reports an invalid handle and disturbs no other timer; clearing cancels everything and termination releases everything once.",
  ["histories", "inputs", "fault_sequences"], "all timeouts and clock values within the bound, every allocation failing",
  "The returned delay is hardly asserted by tests.",
  ["timer/sc_timer.c"],
  [("next poll estimate", "sc_timer.c: sc_timer_timeout return value"), ("expansion failure", "sc_timer.c: sc_timer_add")],
  ["return values"])
# ----------------------------------------------------------- uri ini opt ---
P("U01", "URI parsing decomposes exactly the input",
  "For every well-formed hierarchical or opaque URI the parser returns scheme, user info, host, port, path, query and fragment exactly as delimited by RFC 3986, with ':', '@', '?' and '#' recognised only in the component where they delimit. Whatever string is accepted, the stored full text equals the input and every part is a nul-terminated string inside the object; missing schemes, unterminated IPv6 literals and ports that are empty or above 65535 are rejected.",
  ["inputs"], "all byte strings up to the length bound",
  "Tests parse a dozen typical URIs; delimiters appearing in later components are not among them.",
  ["uri/sc_uri.c", "uri/sc_uri.h"],
  [("left-to-right delimiter search", "sc_uri.c: sc_uri_create")],
  ["fields of the result"])
P("I01", "INI parsing reports exactly the items of the text, in order",
  "For every input text the parser calls back once per key/value line with the current section, key, value and line number according to the documented syntax (comments, BOM, whitespace, continuation lines, '=' or ':'), stops with the line number at the first malformed line or non-zero callback result, and never reads or writes outside its line buffer whatever the lengths of lines, sections and keys. Over-long lines are truncated, not split, and file and string input are parsed alike; an unreadable file gives -1 and files are closed.",
  ["inputs", "fault_sequences"], "all texts up to the length bound, over-long lines, I/O errors",
  "Tests parse short well-behaved samples.",
  ["ini/sc_ini.c", "ini/sc_ini.h"],
  [("line parser", "sc_ini.c: sc_ini_parse"), ("line readers", "sc_ini.c: file_line, string_line"), ("truncation to the 1 KB line buffer", "sc_ini.h: SC_INI_MAX_LINE_LEN")],
  ["callback invocations, return values"])
P("O01", "Option parsing recognises exactly the configured options",
  "For every argument string and option table the parser returns the letter of the first option spelled as '-x', '-x=value', '--name' or '--name=value' (a blank behind the letter ends it like '=') and '?' for anything else; the value points just behind the '=' or at the terminating nul, and is NULL for unknown options. No byte beyond the argument's terminator or an option's name is read.",
  ["inputs"], "all argument strings and option names up to the bound, tables with missing long names",
  "Tests use three fixed command lines; prefixes of names and empty values are not covered.",
  ["option/sc_option.c", "option/sc_option.h"],
  [("letter / name matching", "sc_option.c: sc_option_at")],
  ["return value and value pointer"])
# ------------------------------------------------------------- crc sc sig ---
P("C01", "CRC-32C equals its mathematical definition for every input",
  "For every initial value, length, contents and start alignment the computed checksum equals the bitwise CRC-32C (Castagnoli) definition, does not depend on how the data is split over successive calls or on the implementation chosen (table-driven or hardware), and reads exactly the given bytes.",
  ["inputs", "configurations"], "all contents up to the length bound at all alignments; all initial values; all split points; table-driven and hardware-intrinsic variants",
  "Tests check one fixed vector table on one implementation.",
  ["crc32/sc_crc32.c", "crc32/sc_crc32.h"],
  [("table-driven slicing", "sc_crc32.c: software path"), ("three-way interleaved hardware path with shift tables", "sc_crc32.c: hardware path"), ("initialisation", "sc_crc32.c: sc_crc32_init")],
  ["sc_crc32 return value"])
P("G01", "Power-of-two and logarithm helpers are exact for every value",
  "Rounding up to a power of two returns the smallest power of two not below the argument for every argument for which one exists, the power-of-two test is true exactly for powers of two, and min/max return the smaller/larger argument.",
  ["inputs"], "all 64-bit arguments", "Tests try a handful of numbers.",
  ["sc/sc.c", "sc/sc.h"], [("bit smearing", "sc.c: sc_to_pow2"), ("bit trick", "sc.c: sc_is_pow2")], ["return values"])
P("G02", "Human-readable sizes convert exactly or report failure",
  "Parsing a size string returns digits times the unit (b, k, m, g, t, p, e, optional b suffix, any case, directly behind the digits) exactly when the text has that form and the product is a non-negative 64-bit number, and -1 for everything else; nothing wraps around. Formatting a byte count gives a number of at least 1.00 and below 1024.00 in its unit (plain bytes below one kilobyte) that is within two decimals of the count, never writes past the given buffer, and returns NULL rather than truncated text.",
  ["inputs", "fault_sequences"], "all strings up to the bound, all 64-bit counts, all buffer lengths",
  "Tests try about thirty strings and no negative or boundary products.",
  ["sc/sc.c"], [("unit switch and overflow test", "sc.c: sc_size_to_bytes"), ("unit table", "sc.c: sc_bytes_to_size")], ["return values"])
P("G03", "The random stream is a pure function of the seed",
  "The pseudo-random generator is RC4 keyed with the 256-byte seed: the byte stream depends only on the seed, not on how reads are split, and reads write exactly the requested bytes.",
  ["inputs", "histories"], "all seeds for the update step, all splits of reads up to the bound",
  "Tests compare two runs with the same split.",
  ["sc/sc.c"], [("RC4 state update", "sc.c: sc_rand_read")], ["bytes produced"])
P("X01", "Signal-safe formatting is bounded and equals printf on its subset",
  "The async-signal-safe formatter produces for %s, %d, %u, %p, %% (l and ll with %d and %u) exactly the text printf would, cut to the buffer, never writes outside the given buffer for any size including zero, terminates non-empty buffers, and returns the number of characters written or a negative value for an unsupported directive. Logging through it writes exactly the formatted bytes to the descriptor.",
  ["inputs"], "all argument values, buffer sizes and format strings up to the bound",
  "Tests format a few constants into a large buffer.",
  ["signal/sc_signal.c"], [("conversion loop", "sc_signal.c: sc_signal_vsnprintf"), ("log", "sc_signal.c: sc_signal_log")], ["buffer bytes, return value, write() calls"])
P("X02", "Signal handling shuts down once and terminates on fatal signals",
  "Initialisation installs the shutdown handlers, the fatal handlers and ignores SIGPIPE, and reports failure if any installation fails. The first shutdown signal is passed to the application through the shutdown descriptor (or terminates the process if there is none or the write fails), a repeated one terminates the process, and a fatal signal is reported, flushed to the log descriptor and delivered again with default disposition.",
  ["fault_sequences", "histories"], "all signal numbers handled, every system call failing, with and without descriptors configured",
  "Tests raise a few signals in forked children with working system calls.",
  ["signal/sc_signal.c"], [("handler installation", "sc_signal.c: sc_signal_init"), ("shutdown handler", "sc_signal.c: sc_signal_on_shutdown"), ("fatal handler", "sc_signal.c: sc_signal_on_fatal")], ["system calls made"])
# ---------------------------------------------------------- time threads ---
P("D01", "Clock readings convert exactly and sleeping lasts as long as asked",
  "Millisecond and nanosecond readings of the wall and monotonic clocks equal the operating system's seconds and nanoseconds converted without overflow, so they never decrease when the underlying clock does not. Sleeping resumes after every interruption until the whole requested duration has passed, and any other error is reported.",
  ["inputs", "fault_sequences"], "all timespec values, all durations, every interruption pattern up to the bound",
  "Tests sleep once and compare roughly.",
  ["time/sc_time.c"], [("unit conversion", "sc_time.c"), ("EINTR loop with remaining time", "sc_time.c: sc_time_sleep")], ["return values, nanosleep calls"])
P("E01", "Mutex creation is all-or-nothing and lock calls pair up",
  "Initialising a mutex either yields a usable mutex or reports failure, and in every case releases the temporary attribute object exactly once; terminating destroys it exactly once and reports a failure of the system. Locking and unlocking reach the same underlying mutex.",
  ["fault_sequences"], "every pthread call failing", "Tests fail single calls and do not check resource balance.",
  ["mutex/sc_mutex.c"], [("attribute handling", "sc_mutex.c: sc_mutex_init")], ["pthread calls, return values"])
P("E02", "Condition variable hands over every signal exactly once",
  "A waiter returns only after a signal that has not been consumed yet, whether the signal came before or during the wait, receives the data given with that signal, ignores spurious wake-ups, and always leaves the mutex unlocked; no waiter sleeps on while a signal given to it is unconsumed. Signals given in a row without a wait between them count as one, with the latest data. Creation is all-or-nothing and releases what it created when a later step fails.",
  ["schedules", "fault_sequences"], "all interleavings of signalling and waiting threads up to the bound, spurious wake-ups, every pthread initialisation failing",
  "Tests run one schedule of two threads.",
  ["condition/sc_cond.c"], [("done flag under the mutex", "sc_cond.c: sc_cond_wait, sc_cond_signal"), ("staged init", "sc_cond.c: sc_cond_init")], ["return value of wait, pthread calls"])
P("E03", "Threads run once and joining returns the thread's result",
  "Starting a thread runs the given function exactly once with the given argument or reports failure, releasing its attribute object in every case; joining waits for it, returns its result, reports failures, and terminating an unstarted or already joined thread does nothing. A thread object can be started again after it was joined.",
  ["fault_sequences", "histories"], "every pthread call failing, all start/join/terminate sequences up to the bound",
  "Tests fail single calls.",
  ["thread/sc_thread.c"], [("start / join", "sc_thread.c")], ["pthread calls, return values, error text"])
P("P01", "Memory maps cover the request and leak nothing on any failure",
  "Opening a memory map succeeds only if the file is open, (when writable) large enough for offset plus length, and mapped; on any failure nothing stays open or mapped and the error text is set. Flushing covers every byte of the requested range, and unlocking, unmapping and closing happen exactly once for the mapped region.",
  ["fault_sequences", "inputs"], "every system call failing, all offsets, lengths, flags and page sizes within the bound",
  "Tests fail single calls and do not look at the arguments of the system calls.",
  ["memory-map/sc_mmap.c"], [("open-stat-extend-map sequence", "sc_mmap.c: sc_mmap_init"), ("page alignment", "sc_mmap.c: sc_mmap_msync")], ["system calls and arguments"])
# -------------------------------------------------------------- sockets ---
P("K01", "Poll registrations always equal what the kernel was told",
  "For any sequence of add and delete calls on a socket's read/write interest, with system calls failing at any point, the interest recorded for the descriptor equals the kernel's registration, the user data delivered with an event is the one registered, and the descriptor is unregistered exactly when no interest remains. Redundant calls change nothing.",
  ["histories", "fault_sequences"], "all sequences of add/del up to the bound with all event masks, every epoll_ctl failing",
  "Tests add and remove interests in a few orders.",
  ["socket/sc_sock.c"], [("edge computation and rollback", "sc_sock.c: sc_sock_poll_add, sc_sock_poll_del")], ["epoll_ctl calls, fdt->op"])
P("K02", "Poll reports every kernel event with the right meaning",
  "Waiting reports exactly the events the kernel returned, in order, each with its user data; readability, writability, errors and hang-ups map to read/write readiness so that no readable, writable or failed socket is missed; an interrupted wait is retried, failures are reported as -1 with an error text, and waiting never asks for more events than there is storage for.",
  ["inputs", "fault_sequences"], "all kernel event masks and counts up to the bound, failures of epoll_wait",
  "Tests see only the masks loopback sockets produce.",
  ["socket/sc_sock.c"], [("event mapping", "sc_sock.c: sc_sock_poll_event"), ("wait", "sc_sock.c: sc_sock_poll_wait")], ["sc_sock_poll_event, return value"])
P("K03", "Sending and receiving map every system result faithfully",
  "Send and receive return the byte count of the system call, retry when interrupted, report end of stream and errors as -1 with errno and would-block as the documented error, never pass a length or buffer other than the caller's, and set an error text for real failures.",
  ["inputs", "fault_sequences"], "all return values and errno values of the system calls, all lengths, interruption patterns up to the bound",
  "Tests fail a few calls with fixed errno values.",
  ["socket/sc_sock.c"], [("retry loops", "sc_sock.c: sc_sock_send, sc_sock_recv")], ["return values, system call arguments"])
P("K04", "No descriptor or memory is leaked by any failing socket operation",
  "Whichever system or library call fails inside listen, connect, accept, finish-connect, pipe, poll, or notification functions, the function reports failure and after terminating the object every descriptor and allocation obtained is released exactly once, and no descriptor is closed that was not opened.",
  ["fault_sequences"], "every call failing in every position, all socket families and option flags",
  "Tests fail individual calls without accounting for descriptors.",
  ["socket/sc_sock.c"], [("error paths", "sc_sock.c: sc_sock_bind, sc_sock_connect, sc_sock_accept, sc_sock_pipe_init, sc_sock_poll_init")], ["socket/close balance"])
P("K05", "Socket configuration is passed to the system exactly",
  "Receive and send timeouts given in milliseconds reach the system as the same duration for every value, blocking mode changes preserve the other descriptor flags, and address formatting never overruns its buffer and yields host and port (for unix sockets the path) of the peer.",
  ["inputs", "fault_sequences"], "all millisecond values, all flag words, all addresses of both families and unix paths of 6 and 108 bytes",
  "Tests set one timeout and do not measure it.",
  ["socket/sc_sock.c"], [("timeval conversion", "sc_sock.c: sc_sock_set_rcvtimeo, sc_sock_set_sndtimeo"), ("fcntl flags", "sc_sock.c: sc_sock_set_blocking"), ("address text", "sc_sock.c: sc_sock_print")], ["setsockopt/fcntl arguments, buffers"])
# --------------------------------------------------------- logger, perf ---
P("N01", "Each log line reaches every enabled sink exactly once or is reported",
  "A log call at or above the configured level is written exactly once, under the lock, to standard output, the file and the callback, whichever are enabled, and a call below the level or with logging off to none; the lock is released on every path and a failing sink is reported without silencing the others.",
  ["inputs", "fault_sequences"], "all level combinations, sink configurations and failures of formatting and writing",
  "Tests check a few configurations and do not count writes.",
  ["logger/sc_log.c"], [("level test and sink order", "sc_log.c: sc_log_log")], ["writes, callback calls, lock balance"])
P("N02", "Log rotation and reconfiguration never lose the log file or leak handles",
  "When the current file reaches its size limit it is kept under the previous-file name and a new one is started; changing or disabling the file closes the old handle exactly once; failures are reported and leave the logger usable with at most one open file. Stored names, including over-long thread names, never overrun their buffers.",
  ["histories", "fault_sequences", "inputs"], "all sequences of set-file/log/term up to the bound with every file operation failing; all name lengths",
  "Tests rotate once with working file operations.",
  ["logger/sc_log.c"], [("rotation", "sc_log.c: sc_log_file"), ("reconfiguration", "sc_log.c: sc_log_set_file"), ("thread name", "sc_log.c: sc_log_set_thread_name")], ["fopen/fclose/rename calls"])
P("F01", "Performance counters open, pause and close consistently",
  "Starting opens one counter per configured event, pausing and resuming accumulate elapsed time and disable/enable exactly the opened counters, and ending reads and closes every opened descriptor once; a counter that cannot be opened is reported and nothing is leaked.",
  ["fault_sequences", "histories"], "every perf system call failing, call orders up to the bound",
  "The module has no test in the project.",
  ["perf/sc_perf.c", "perf/sc_perf.h"], [("start/pause/end", "sc_perf.c")], ["system calls"])
