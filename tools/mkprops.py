import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A damaged or hostile DNS packet is contained",
 "Handing any byte string of any length to the message parser (or to the exported name unpack/copy/skip/length helpers at any position in it) terminates in bounded work and reads nothing outside the given bytes. If the parse fails, the message is left owning nothing and no memory is leaked; if it succeeds, the message can be rendered and cleared, after which no memory is leaked. The outcome depends only on the bytes of that packet, never on neighbouring memory or on earlier packets.",
 ["inputs","fault_sequences","histories"],
 "every packet a server could send, after every sequence of network faults (truncation at any octet, bit flips, splices of two packets, duplicated or dropped ranges, header count corruption, compression-pointer corruption), in every order of arrival",
 "No existing test calls the message parser at all; the stable tests feed well-formed names and rdata only, so no truncated, spliced or pointer-damaged packet is ever parsed.",
 ["wdns/parse_message.c","wdns/parse_message_rr.c","wdns/parse_rdata.c","wdns/unpack_name.c","wdns/copy_uname.c","wdns/skip_name.c","wdns/len_uname.c","wdns/clear.c"],
 [("end-of-packet checks on every field copy","wdns/parse_rdata.c, wdns/parse_message_rr.c"),("backward-only compression pointers and 255-octet name cap","wdns/unpack_name.c"),("error path frees the RR and the whole message","wdns/parse_message.c, wdns/clear.c")],
 ["wdns_parse_message","wdns_unpack_name","wdns_copy_uname","wdns_skip_name","wdns_len_uname","wdns_message_to_str","wdns_clear_message"])

p("C02","A delivered DNS message is decoded faithfully, whatever arrived before it",
 "For a message that reaches the parser, the decoded id, flags, response code (including the extended bits of the first OPT record), EDNS fields and, per section and in order, every record's owner name (uncompressed, case preserved), type, class, TTL and rdata (embedded names uncompressed, all else verbatim) are exactly those on the wire. A message cut at a record boundary yields exactly the records before the cut; one cut inside a record, or whose rdata does not fit its type's layout, is rejected. Duplicate, reordered or previously rejected packets do not change any of this. The exported functions that expand, copy, skip and measure a name agree with this decoding at every position of the bytes, and fail where no such name starts.",
 ["inputs","histories","fault_sequences"],
 "all messages (any record types, name compression, EDNS presence and position) under any history of loss, duplication, reordering, truncation and corruption on the network",
 "No test parses a message: header, sections, compression, EDNS and per-type rdata decoding are never exercised together, and no test parses two messages in sequence.",
 ["wdns/parse_message.c","wdns/parse_message_rr.c","wdns/parse_rdata.c","wdns/parse_edns.c","wdns/record_descr.c","wdns/unpack_name.c","wdns/insert_rr_rrset_array.c"],
 [("record descriptor table drives rdata layout","wdns/record_descr.c"),("name expansion in owner and rdata","wdns/unpack_name.c"),("first OPT record diverted into the EDNS fields","wdns/parse_edns.c, wdns/parse_message.c")],
 ["wdns_parse_message"])

p("C03","RRset views conserve the records of each section",
 "After a parse, the RRsets of each non-question section partition exactly the records of that section: each record's rdata appears once, in arrival order, in the RRset whose type, class and case-insensitive owner name match, that RRset's owner name is the first arrival's spelling, and its TTL is the lowest TTL of its members. Each question yields its own RRset without rdata. The record view and the RRset view own independent storage, so clearing or modifying one leaves the other intact.",
 ["inputs","histories","fault_sequences"],
 "every interleaving of records of several RRsets within a section, duplicated records, mixed-case owner names, differing TTLs, under network reordering and duplication of records",
 "Record grouping, TTL minimisation and ownership transfer are not covered by any test.",
 ["wdns/insert_rr_rrset_array.c","wdns/compare_rr_rrset.c","wdns/downcase_name.c","wdns/clear.c"],
 [("backward scan for a matching RRset, rdata detached to it, minimum TTL","wdns/insert_rr_rrset_array.c"),("case-insensitive match","wdns/compare_rr_rrset.c")],
 ["wdns_parse_message","wdns_compare_rr_rrset","wdns_clear_rr","wdns_clear_rrset"])

p("C04","Sensors converge on one canonical form of an RRset",
 "Two parties that receive the same records in different order, with different ASCII letter case in owner names and in the rdata names that DNSSEC canonical form lower-cases, and with different name compression, obtain byte-identical serialized RRsets after down-casing and sorting. Down-casing changes nothing but ASCII letters of those names, is idempotent and reports an error rather than touching memory outside a malformed rdata; sorting only permutes rdatas, into ascending order by length and then by octets.",
 ["inputs","histories","schedules","fault_sequences"],
 "all RRsets of all types, all arrival orders, all letter-case randomisations (0x20) and compression choices, duplicated records, and rdata damaged in storage",
 "No test calls the downcase, sort or serialize functions, and confluence is a relation between two executions that a single-run unit test does not state.",
 ["wdns/downcase_rrset.c","wdns/downcase_rdata.c","wdns/downcase_name.c","wdns/sort_rrset.c","wdns/serialize_rrset.c"],
 [("RFC 4034 section 6.2 type list and per-field walk","wdns/downcase_rdata.c"),("length-then-content comparison","wdns/sort_rrset.c")],
 ["wdns_downcase_rrset","wdns_downcase_rdata","wdns_sort_rrset","wdns_serialize_rrset"])

p("C05","A stored RRset reads back exactly, and torn storage is always detected",
 "An RRset serialized into a buffer of the reported size fills exactly that many octets and, read back, has identical owner name, type, class, TTL and rdatas in the same order. A record of which only a proper prefix survived a crash is reported as an error and leaves nothing allocated. A record with corrupted octets or trailing garbage never causes an access outside the buffer, and whatever is read back from it can be down-cased, sorted, rendered, re-serialized and cleared safely.",
 ["inputs","crash_points","fault_sequences","histories"],
 "every RRset, every crash point during appends to a store (any prefix of the un-synced tail surviving), short and torn writes, flipped stored octets, and any later sequence of reads",
 "No test calls serialize or deserialize; crash prefixes and corrupted records are never produced.",
 ["wdns/serialize_rrset.c","wdns/deserialize_rrset.c","wdns/clear.c","wdns/downcase_rdata.c","wdns/sort_rrset.c","wdns/rrset_to_ubuf.c"],
 [("size computed from the same fields that are written","wdns/serialize_rrset.c"),("length check before every field, cleanup on failure","wdns/deserialize_rrset.c")],
 ["wdns_serialize_rrset","wdns_deserialize_rrset"])

p("C06","Rendered messages show exactly the records received; damage is marked",
 "The text of a message, section, RRset or record contains the header fields, EDNS data and every record exactly once and in order, each in the documented presentation form, and depends on nothing but the object rendered. Record data that ends in the middle of a field is rendered as text that ends in an explicit parse-error marker. Rendering any object obtained from the network or from storage, however damaged, terminates, produces a NUL-terminated string whose length is bounded in the size of the object, and stays within the object's memory.",
 ["inputs","fault_sequences","histories"],
 "every message or stored RRset obtained through the faulty network or the faulty store, every record type, in any order of calls",
 "The tests render isolated names and a fixed list of rdata samples; messages, EDNS, sections, RRsets and damaged rdata are never rendered.",
 ["wdns/message_to_str.c","wdns/rr_to_ubuf.c","wdns/rrset_to_ubuf.c","wdns/rrset_array_to_ubuf.c","wdns/rdata_to_ubuf.c","wdns/domain_to_str.c","wdns/edns_options.c","wdns/rdata_to_str.c"],
 [("bytes_required guards before each field","wdns/rdata_to_ubuf.c"),("growing buffer for all output","libmy/ubuf.h")],
 ["wdns_message_to_str","wdns_rrset_array_to_str","wdns_rrset_to_str","wdns_rr_to_str","wdns_rdata_to_str","wdns_domain_to_str"])

p("C07","Printing to a failing stream emits a prefix of the text and leaks nothing",
 "Printing a message, RRset array, RRset or record to a stream delivers exactly the octets of the corresponding string rendering when the stream accepts everything. When the stream fails (full disk, I/O error, short or interrupted writes) what was delivered is a prefix of that text, the failure stays visible on the stream, the object printed is unchanged, and no memory is leaked.",
 ["inputs","fault_sequences"],
 "every printable object and every sequence of stream faults (short writes, EINTR, ENOSPC or EIO at any octet, any buffering mode)",
 "No test calls a print function; stream errors cannot be produced by the existing tests.",
 ["wdns/print_message.c","wdns/print_rr.c","wdns/print_rrset.c","wdns/print_rrset_array.c"],
 [("render to a string, write once, free","wdns/print_*.c")],
 ["wdns_print_message","wdns_print_rr","wdns_print_rrset","wdns_print_rrset_array"])

p("C08","Records exported as text and re-imported are never silently altered",
 "For rdata of a well-formed record received from the network, exporting it as text and importing that text for the same type and class gives back the same octets (type bitmaps up to their canonical encoding); types that have no text import are refused explicitly. For any other rdata the parser accepted, the import of the exported text either yields the same octets or is refused; it never succeeds with different content. The same holds for domain names, with and without down-casing.",
 ["inputs","histories","fault_sequences"],
 "all record types and classes, all rdata contents a faulty network can deliver to the parser, chains of repeated export and import",
 "The tests check a fixed table of samples in each direction; the relation over all contents (escapes, separators, empty and maximal fields, unknown types) is not sampled.",
 ["wdns/rdata_to_ubuf.c","wdns/str_to_rdata_ubuf.c","wdns/domain_to_str.c","wdns/str_to_name.c","wdns/svcparamkeys_to_str.c","libmy/b32_encode.c","libmy/b32_decode.c","libmy/b64_encode.c","libmy/b64_decode.c","libmy/fast_inet_ntop.c","libmy/my_format.c"],
 [("escape rules of strings, names, alpn lists","wdns/rdata_to_ubuf.c, wdns/domain_to_str.c"),("matching import rules","wdns/str_to_rdata_ubuf.c, wdns/str_to_name.c")],
 ["wdns_rdata_to_str","wdns_str_to_rdata","wdns_domain_to_str","wdns_str_to_name_case","wdns_str_to_name"])

p("C09","A damaged text record or name is contained on import",
 "Importing any NUL-terminated text as rdata of any type and class, or as a domain name, terminates, reads nothing past the terminator, and returns either an error with nothing allocated or handed out, or a result that is well-formed wire data for that type: names with labels of at most 63 octets and at most 255 octets in all, and every length field consistent. A text that follows the presentation format is imported as exactly what it denotes, or refused; one with a number, string, salt, hash, name or length that does not fit its field is refused, never imported as something shorter or smaller. Text obtained from exported text by truncation, octet damage or joining of lines is covered.",
 ["inputs","fault_sequences"],
 "every text for every type and class, in particular exported lines after torn, truncated, flipped, duplicated or interleaved writes to the file that holds them",
 "The tests use hand-written valid and a few invalid strings; damage at every position of every field type is not sampled and memory errors would not be noticed.",
 ["wdns/str_to_rdata_ubuf.c","wdns/str_to_name.c","wdns/svcparamkeys_to_str.c","libmy/b32_decode.c","libmy/b64_decode.c"],
 [("per-field syntax checks, output clipped on error","wdns/str_to_rdata_ubuf.c"),("name length limits","wdns/str_to_name.c")],
 ["wdns_str_to_rdata","wdns_str_to_name","wdns_str_to_name_case"])

p("C10","A failing allocation is contained",
 "When any memory allocation made on behalf of a library call fails, the call either stops the process through the library's allocation check, or reports failure to its caller, or completes with the same result as without the failure. It never dereferences the missing memory, never returns success with missing or different content, and, if it returns, leaks nothing and leaves its arguments clearable.",
 ["fault_sequences","inputs"],
 "every public operation, every input, and every position (one or several) at which the allocator returns no memory",
 "Allocation never fails in the test environment, so no failing-allocation path is executed by any test.",
 ["libmy/my_alloc.h","libmy/ubuf.h","libmy/vector.h","wdns/parse_message.c","wdns/rdata_to_ubuf.c","wdns/str_to_rdata_ubuf.c","wdns/str_to_name.c","wdns/deserialize_rrset.c"],
 [("allocation wrappers that assert success","libmy/my_alloc.h")],
 ["every exported function that allocates"])

p("C11","Concurrent callers on distinct objects do not disturb each other",
 "Threads that use the library at the same time, each on its own messages, records, names and text, obtain exactly the results they would obtain one after another, under every interleaving, including when the process's very first library calls are concurrent.",
 ["schedules","inputs"],
 "every interleaving of any mix of public operations by several threads, preempted between any two basic blocks or memory accesses, starting from a fresh process",
 "All tests are single-threaded; a shared static buffer, lazily built table or non-reentrant libc call would pass all of them.",
 ["wdns/rdata_to_ubuf.c","wdns/str_to_rdata_ubuf.c","wdns/message_to_str.c","wdns/domain_to_str.c","libmy/b32_decode.c","libmy/fast_inet_ntop.c","libmy/my_format.c"],
 [("no mutable shared state; constant tables","whole library"),("reentrant tokenisers","wdns/str_to_rdata_ubuf.c, wdns/message_to_str.c")],
 ["all public operations"],[("base32 decode map","lazily built shared table","libmy/b32_decode.c")])

p("C12","A file of names is loaded completely and in order, or the failure is reported",
 "Loading a name-list file calls back once per name line, in file order, with exactly the (lower-cased) name on that line, whatever the chunking of the reads; blank, indented and comment lines are skipped and a final line without newline counts. A missing file, a line that is not a valid name or a read error is reported as a failure after the names before it, and never invents a name. In all cases the file is closed and no memory beyond the delivered names remains allocated.",
 ["inputs","fault_sequences","crash_points"],
 "every file content (any line lengths, missing final newline, NUL octets, torn tail after a crash) and every sequence of short reads, interruptions and I/O errors",
 "No test loads a file; I/O errors and short reads cannot occur in the existing tests.",
 ["wdns/file_load_names.c","wdns/str_to_name.c"],
 [("line loop with comment filter and stop at first bad name","wdns/file_load_names.c")],
 ["wdns_file_load_names"])

p("C13","The dump tools survive damaged captures and account for every packet",
 "For every capture, the pcap dump tool prints the text of each DNS message that parses, in order, and writes each packet whose DNS payload fails to parse to the output capture unchanged and in order; packets too short or not IPv4 are skipped, and the counts on standard error match the packets read and dumped. The file dump tool prints the message in its file or fails. Neither reads outside the captured octets, whatever the IP and UDP headers claim and wherever the capture was cut, nor uses memory that grows with the number of packets, and neither exits with success when the input ended in an error or output could not be written.",
 ["inputs","fault_sequences"],
 "every capture content and snap length, header-length and total-length corruption, capture files cut by a crash, short reads and read errors of the input file",
 "The example programs are built but never run by the tests.",
 ["examples/wdns-dump-pcap.c","examples/wdns-dump-file.c"],
 [("layer-by-layer length checks","examples/wdns-dump-pcap.c: packet_handler"),("complete-read check","examples/wdns-dump-file.c: main")],
 ["standard output","output capture","exit status","packet counts on standard error"])

p("C14","The lock-free queue is a FIFO delivering every element exactly once, intact",
 "With one producer and one consumer running concurrently under any interleaving and any store visibility the declared barriers permit, elements come out of the queue in insertion order, each exactly once and with the exact content inserted. An insert fails only when the queue is full and a remove fails only when it is empty at some instant during the call, the capacity is one less than the requested power of two, and the space and count reported never exceed the truth as seen by the caller. Sizes that are not a power of two of at least two are refused.",
 ["schedules","histories"],
 "every interleaving at memory-access granularity, every delay of stores up to the next barrier, all queue sizes and element sizes, wrap-around included",
 "The queue has no test at all, and ordering faults need specific interleavings.",
 ["libmy/my_queue_mb.c","libmy/my_memory_barrier.h","libmy/my_queue.h","libmy/my_queue.c"],
 [("write barrier between copying the element and publishing the head, full barrier before publishing the tail","libmy/my_queue_mb.c")],
 ["my_queue_init/insert/remove"],[("head/tail","single-writer ring indices","libmy/my_queue_mb.c")],
 None)

p("C15","The mutex queue is linearizable for any number of producers and consumers",
 "Under any interleaving of any number of producers and consumers, the history of inserts and removes is linearizable as a bounded FIFO of capacity one less than its size: every element accepted is delivered exactly once, intact, and the reported space and count are those right after the operation. No operation ever blocks forever or returns holding the lock.",
 ["schedules","histories"],
 "every interleaving of 2-4 threads at memory-access granularity, all sizes, wrap-around included",
 "The queue has no test at all; a lost update needs two threads inside the same window.",
 ["libmy/my_queue_mutex.c","libmy/my_queue.h"],
 [("one lock around each operation","libmy/my_queue_mutex.c")],
 ["my_queue_mutex_init/insert/remove"])

p("C16","The rate limiter never runs ahead of its rate and never stalls",
 "A caller that invokes the limiter before every event completes, in any window, at most one event per tick period of the pace in force, one more per second boundary (the tick grid starts again every second) and a small constant, whatever the work between events, interruptions, late wake-ups and clock granularity. Without adjustment the pace is the configured rate; with adjustment every freq events it moves by at most one per cent per adjustment toward keeping the average over the limiter's life at the rate, and prompt callers average close to the rate. A call sleeps for at most one period, or two when the clock was set, so that after any stall or clock step the limiter is back at its pace at once; a clock set back makes it begin again. Every rate of at least one event per second and every frequency works, and no division by zero or undefined arithmetic occurs.",
 ["schedules","fault_sequences","configurations","histories"],
 "all rates and adjustment frequencies, all sequences of work times, late wake-ups, sleep interruptions, clock granularity and clock jumps, in both clock configurations",
 "The limiter has no test, and its guarantee is about time, which the tests do not control.",
 ["libmy/my_rate.c","libmy/my_time.h"],
 [("next-tick computation on a period grid and feedback adjustment clamped to one per cent","libmy/my_rate.c")],
 ["my_rate_sleep"],[("next_tick, period, count","limiter state","libmy/my_rate.c")])

p("C17","An interrupted sleep still sleeps the requested time, once",
 "Sleeping for an interval returns only after at least that interval has elapsed, no matter how many signals interrupt it and where, requests in total no more than the interval plus scheduling delay, and gives up on any error other than an interruption instead of spinning. Time arithmetic used for it keeps nanoseconds within one second for all operands.",
 ["fault_sequences","schedules","inputs"],
 "every interval and every sequence of interruptions, early and late wake-ups and errors",
 "No test sleeps; signals during the sleep cannot be produced deterministically by tests.",
 ["libmy/my_time.h"],
 [("retry with the remaining time on EINTR","libmy/my_time.h: my_nanosleep")],
 ["my_nanosleep","my_timespec_add","my_timespec_sub"])

p("C18","A blocking read delivers exactly the requested bytes or reports failure",
 "Reading a given number of bytes from a descriptor returns success only after exactly that many bytes, in stream order, have been stored, consuming nothing beyond them, however the data is split and however often the read is interrupted. End of stream or an error before that is reported as failure; nothing outside the destination is written and the call never spins on end of stream or error.",
 ["fault_sequences","inputs","schedules"],
 "every sequence of short reads, interruptions, end of stream and errors, and every size including zero",
 "The helper has no test; short reads and interruptions need a controlled descriptor.",
 ["libmy/read_bytes.h"],
 [("loop on short reads and EINTR","libmy/read_bytes.h")],
 ["read_bytes"])

p("C19","The file set converges to its set file, loading and unloading each file once",
 "After a reload that saw a changed and readable set file, the entries are exactly the existing files the set file lists, in sorted order, with a file that stayed keeping its loaded object, a new file loaded exactly once and a dropped file unloaded exactly once with its own object. Over any history of set file edits, file appearances and disappearances, failed calls and reloads, no object is used after it was unloaded, none is unloaded twice, and destroying the set unloads every remaining object once. A failing open or read of the set file never loses entries, and once such faults stop a later reload converges.",
 ["histories","fault_sequences","crash_points"],
 "all histories of set file contents (including duplicates and blank lines), file existence, stat/open/read failures and reloads at any point",
 "The file set has no test; failures of stat, open and getline cannot occur in the existing tests.",
 ["libmy/my_fileset.c","libmy/my_fileset.h"],
 [("change detection by inode and mtime","libmy/my_fileset.c: setfile_updated"),("sorted entry vector, keep flags","libmy/my_fileset.c: my_fileset_reload")],
 ["load and unload callbacks","my_fileset_get"],[("entries","loaded objects","libmy/my_fileset.c")])

p("C20","Every spooled file is handed to exactly one consumer and survives a crash",
 "Threads sharing a spool directory receive each regular file placed in its incoming directory at most once, and exactly once if no fault hits it; when a name is returned the file is in the active directory with its content intact, and hidden files and directories are never taken. A failing or crashing consumer at any point never loses a file that was not yet handed out and never leaves the spool locked, and when nothing is available the call returns nothing after a pause instead of spinning or blocking other threads forever.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of producers and consumers, every crash point between file-system calls, failing stat, readdir and rename",
 "The spool directory has no test; races and crashes between the existence check, unlink and rename need a controlled scheduler.",
 ["libmy/spooldir.c","libmy/spooldir.h"],
 [("lock around scan and claim, claim by rename into active","libmy/spooldir.c: spooldir_next")],
 ["spooldir_init","spooldir_next","spooldir_destroy"])

p("C21","Registered threads get distinct, stable, dense numbers",
 "Threads that register concurrently each obtain a number no other registration obtained, the numbers handed out are exactly 0 to n-1, and a thread keeps reading its own number whatever the others do.",
 ["schedules"],
 "every interleaving of registrations and lookups by any number of threads",
 "The registry has no test; a duplicate needs two threads inside the same window.",
 ["libmy/threadnum.c","libmy/threadnum.h"],
 [("lock around the counter, thread-local copy","libmy/threadnum.c")],
 ["my_threadnum_register","my_threadnum"])

p("C22","Atomic counters lose no update and report transitions to exactly one thread",
 "Under any interleaving, a shared atomic counter (32-bit, 64-bit or pointer-sized variants) ends at its initial value plus the sum of all additions, subtractions, increments and decrements applied, and each fetch-and-zero collects every unit exactly once. An operation that tests for zero or for a negative result is right about the value its own update produced, so exactly one of the threads dropping the last reference is told so.",
 ["schedules","histories"],
 "every interleaving of 2-4 threads performing any mix of the counter operations",
 "The counters have no test; a lost update needs two threads inside the same window.",
 ["libmy/atomic.h","libmy/atomic_64.h","libmy/atomic_ptr.h"],
 [("compiler atomic read-modify-write primitives","libmy/atomic*.h")],
 ["atomic_* operations"])

p("C23","Checksums agree on every host and expose damaged storage",
 "The CRC-32C of a byte string is the same on every host - with or without the processor's instruction, whatever the alignment and length of the buffer, and also when the process's first calls are concurrent or come before start-up code has run - and computing it reads nothing outside the bytes. A record stored with its checksum therefore verifies on every host if it is intact, and does not verify if up to three bits, or any bits within 32 consecutive ones, were changed.",
 ["schedules","fault_sequences","configurations","inputs"],
 "every byte string and alignment, every interleaving of the first calls, hosts with and without the instruction, every burst or small set of flipped bits",
 "The existing test computes fixed vectors on the machine it runs on, one thread, one implementation.",
 ["libmy/crc32c.c","libmy/crc32c.h","libmy/crc32c-sse42.c","libmy/crc32c-slicing.c"],
 [("function pointer resolved at start-up or by the first call","libmy/crc32c.c"),("table-driven and instruction-based implementations","libmy/crc32c-slicing.c, libmy/crc32c-sse42.c")],
 ["my_crc32c"],[("my_crc32c","implementation in use","libmy/crc32c.c")])

p("C24","Variable-length integers survive any fragmentation of their stream",
 "Packing an integer writes exactly the number of octets announced for it. A receiver of packed integers, however the stream is cut into pieces, is told that an integer is incomplete exactly as long as its last octet has not arrived, without anything beyond the octets it has being read; once complete, decoding gives the value that was sent and the number of octets to consume, so the sequence of values is the one sent. An encoding without an end within the longest legal one (5 octets for 32 bits, 10 for 64) is reported as length 0, and reading stops there.",
 ["inputs","fault_sequences","schedules"],
 "every sequence of 32- and 64-bit values, every fragmentation and break of the stream, every damaged encoding",
 "Varints have no test; fragmentation at every octet of every length is not sampled.",
 ["libmy/varint.c","libmy/varint.h"],
 [("continuation bits, length probe before decoding","libmy/varint.c")],
 ["varint_length","varint_length_packed","varint_encode32","varint_encode64","varint_decode32","varint_decode64"])

p("C25","A zone file is read completely and in order, or the failure is reported",
 "Opening a zone succeeds exactly if its file can be read and begins, after comments and directives, with an SOA record; the zone's name, serial and number of records read are then available at any time. Reading yields the SOA and then each record once, in file order, with relative names completed by the current origin (the zone's own name until a directive sets one) and owners and TTLs inherited, up to the end or a repeated SOA. A malformed entry is reported and the entries after it are still read. A file that cannot be opened, a read error, or a decompressor that fails or dies is reported as failure, never as the end of the zone or as a partial record, and is never retried forever. Compressed files are found under any name. The file is closed and nothing leaks in any case.",
 ["inputs","fault_sequences","histories"],
 "all sequences of records, directives, comments and malformed entries, plain and compressed, all file names, every point at which the file, the read or the decompressor can fail",
 "The reader is neither built nor tested here, and no test makes a read or a decompressor fail.",
 ["libmy/zonefile.c","libmy/zonefile.h"],
 [("loop over the ldns entry reader with end-of-file and SOA detection; zcat through popen","libmy/zonefile.c")],
 ["zonefile_init_fname","zonefile_read","zonefile_get_domain","zonefile_get_serial","zonefile_get_count","zonefile_destroy"],
 [("origin, prev, ttl","parser state carried from entry to entry","libmy/zonefile.c")])

na=[]
def n(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech); na.append({"property":id,"reason":reason})
n("C30","Name algebra agrees with the label structure of the names",
 "Label counting, subdomain tests, left-chopping and reversal of uncompressed names agree with the sequence of labels of those names for every well-formed name, and report an error for malformed ones.",
 "all pairs of names","No test covers these functions.",
 ["wdns/count_labels.c","wdns/is_subdomain.c","wdns/left_chop.c","wdns/reverse_name.c"],[("label walks","wdns/is_subdomain.c")],
 "Pure function of its arguments: no allocation, stream, clock, thread or stored state, so there is no schedule or fault for a simulator to decide; generating inputs for it would be fuzzing, not simulation.")
n("C31","Mnemonic tables are mutually inverse",
 "For every type, class and response code number, converting to its mnemonic and back yields the same number, lookups ignore case, and the generic TYPEn/CLASSn forms cover all 65536 values.",
 "all 65536 values of each table","Tests sample some mnemonics.",
 ["wdns/gen_rrtype_to_str","wdns/gen_rrclass_to_str","wdns/gen_rcode_to_str","wdns/opcode_to_str.c"],[("generated sorted tables","wdns/gen_*")],
 "Finite constant tables, a pure function of a 16-bit input: enumeration decides it completely and nothing nondeterministic is involved (their use inside rendering and import is exercised by C06 and C08).")
n("C32","Stand-alone codecs are exact",
 "Hex, Base32, Base64, decimal and address formatting and the lookup3 hash produce exactly the specified output for every input, and encoders and decoders are inverse.",
 "all inputs","Tests cover address formatting samples.",
 ["libmy/hex_decode.h","libmy/lookup3.c","libmy/b64_encode.c","libmy/b32_encode.c","libmy/fast_inet_ntop.c","libmy/my_format.c"],[("table-driven transforms","libmy/*.c")],
 "Pure functions of a byte string: no nondeterminism to simulate (Base32/Base64/address formatting are still exercised end to end through C06, C08 and C11).")
n("C33","In-memory containers keep their invariants",
 "Heap, intrusive list, tree and vector keep order, size and membership exactly as an abstract container would for every sequence of operations.",
 "all operation sequences","No test covers them.",
 ["libmy/heap.c","libmy/list.h","libmy/tree.h","libmy/vector.h"],[("heap sift, red-black rebalancing","libmy/heap.c, libmy/tree.h")],
 "Single-threaded in-memory data structures without I/O, time or sharing: model-based property testing, not fault simulation, is the fitting technique (allocation failure in the vector is covered by C10).")
n("C34","String and address helpers are exact",
 "Address arithmetic, string replacement, hex and safe printing and argument parsing give exactly the specified result for every input.",
 "all inputs","No test covers them.",
 ["libmy/ip_arith.h","libmy/string_replace.h","libmy/print_string.h","libmy/getenv_int.h","libmy/argv.c"],[("pure helpers","libmy")],
 "Pure helpers with no schedule, clock, fault or interleaving.")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
json.dump(na,open('/verif/tools/na.json','w'),indent=1)
print(len(P))
