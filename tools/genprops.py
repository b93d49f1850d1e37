#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script only because hand-editing JSON lines is error prone).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    assert statement.count(". ")<=2,(id,statement)
    P.append(d)
E="dnstable/entry.c";Q="dnstable/query.c";QM="dnstable/query_mtbl.c";M="dnstable/merge.c";R="dnstable/reader.c";T="dnstable/triplet.c"

p("C01","A stored record is decoded exactly as it was encoded",
 "Decoding a key/value pair that follows the documented dnstable encoding yields the entry type, owner name, bailiwick, rrtype, ordered rdata list, rdata name, first-seen and last-seen times, count, source text, version and rrtype list that were encoded, for every entry type, including keys whose rdata was stored with its fixed-length prefix moved behind the name (MX, SRV, SVCB, HTTPS). A stored count of 0 is reported as 1 and a stored last-seen time of 0 is reported as the first-seen time. Accessors that do not apply to an entry's type, or rdata indexes past the end, report failure.",
 ["inputs"],"every well-formed record of every entry type: any names up to 255 octets, any rrtype 0-65535, any rdata list, any 64-bit times and counts",
 "tests/ decode the few hundred records of a fixed capture; sliced rdata, boundary varints, empty rdata, maximal names and zero-valued times are sampled at best once",
 [E,T,"man/dnstable-encoding.5.txt","dnstable/dnstable.h"],
 [("entry decoders","dnstable/entry.c dnstable_entry_decode and the per-type decode functions"),("value triplets","dnstable/triplet.c"),("accessors","dnstable/entry.c dnstable_entry_get_*")],
 None,["dnstable_entry_decode","dnstable_entry_get_*"])
p("C02","Arbitrary bytes are decoded safely or rejected cleanly",
 "For every byte string offered as key and every byte string offered as value, decoding either reports failure or yields an entry all of whose accessors and renderings work and report parts of the given bytes. No byte outside the two given strings is ever read, and neither an abort nor undefined memory access occurs while decoding, reading or rendering the entry.",
 ["inputs"],"every pair of byte strings as key and value, truncated, extended or corrupted at any position",
 "tests only decode well-formed files; truncated varints, names running past the end, bad lengths and corrupted bitmaps never occur in them",
 [E,T,"libmy/varint.c"],
 [("bounds checks of the decoders","dnstable/entry.c decode_*"),("length validation of packed times","dnstable/triplet.c")],None,["dnstable_entry_decode","dnstable_entry_format"])
p("C03","JSON output is valid and carries exactly the record, for every option",
 "For every entry and every formatter configuration, the JSON rendering is one syntactically valid JSON document whose members are exactly those that the entry's type and the configuration call for, with values equal to the record: names and rdata in presentation form, rrtype mnemonics, counts, seen or zone times as integers or RFC 3339 strings, and raw rdata in hexadecimal when enabled. Rdata of an RRset is always an array, and rdata of a single rdata record is an array exactly when the always-array option is set. A formatter's settings influence nothing other than what each is documented to control.",
 ["inputs","configurations"],"every decodable entry crossed with date format, raw rdata, array and zone flags",
 "the golden files cover one corpus with few option combinations; escaping, 64-bit extremes, empty lists, dates and option interactions are not covered",
 [E,"dnstable/dnstable-json.h","dnstable/dnstable.h"],
 [("JSON serialiser","dnstable/entry.c dnstable_entry_format, *_to_json"),("rfc3339 dates","dnstable/entry.c fmt_rfc3339_time*")],None,["dnstable_entry_to_json","dnstable_entry_format"])
p("C04","Text output is faithful to the record",
 "The text rendering of every entry presents exactly the decoded record: for an RRset the bailiwick, count, seen or zone times (in UTC) and one master-file line per rdata in stored order; for an rdata record one master-file line; for names the name and its rrtypes; and for metadata its content. Times that cannot be shown in full are never rendered as a different time, and no rdata line is lost, duplicated or attributed to another name or type.",
 ["inputs","configurations"],"every decodable entry, zone flag and date value",
 "the golden text files cover one corpus; boundary times, many-rdata sets and unusual names are not in it",
 [E],[("text renderers","dnstable/entry.c *_to_text, fmt_time")],None,["dnstable_entry_to_text","dnstable_entry_format"])
p("C05","Merging values of equal keys widens times, adds counts and is order-free",
 "Merging the values stored under one key yields, for record keys, the smallest first-seen time, the largest last-seen time and the sum of the counts; for a time-range key the smallest lower and largest upper bound; and for a version key the smaller version. The result does not depend on the order or grouping in which any number of values are merged, and it can be decoded again. If one side of a time-range or version merge carries no value, the result carries none.",
 ["inputs","histories"],"all keys, any number of values in any merge order and association",
 "tests merge two fixed files; associativity, commutativity, varint width changes and empty operands need quantification over values and orders",
 [M,T],[("merge function","dnstable/merge.c dnstable_merge_func"),("packing","dnstable/triplet.c")],None,["dnstable_merge_func"])
p("C06","Rrtype indexes represent exact sets and never hide an rrtype",
 "An rrtype index in any of its encodings (empty, one byte, two bytes, window bitmap) stands for exactly the set of rrtypes it encodes when it is listed (in increasing order) or tested, an empty one standing for every indexed rrtype. Merging two indexes gives the union of the two sets, as a bitmap without empty blocks or trailing zero octets where they differ, with an empty index absorbing the other. A malformed index is never read outside its bounds, is reported as corrupt when listed or merged, and does not exclude the rrtypes of a block that is cut off.",
 ["inputs"],"all sets of 16-bit rrtypes and all byte strings offered as index",
 "tests/test-bitmaps.c covers a handful of hand-written bitmaps; window boundaries, all 65536 bits and malformed blocks are not",
 [E,M,Q],[("union decoding","dnstable/entry.c rrtype_union_unpack, rrtype_test"),("union merging","dnstable/merge.c merge_rrtype_bitmaps")],None,["dnstable_merge_func","dnstable_entry_format","rrtype_test","rrtype_union_unpack"])
p("C07","RRset queries return exactly the matching RRsets, once, in key order",
 "An RRset query by owner name (exact; `*.suffix`, `prefix.*` matching zero or more labels; `+.suffix`, `prefix.+` matching exactly one label), optionally restricted to an rrtype and a bailiwick, returns every stored RRset that matches, each exactly once, with merged times and count, and returns nothing else. Names are matched case-insensitively by lowercasing the query unless case sensitivity was requested. Whether index entries carry the rrtypes they index, or none, does not change the result.",
 ["inputs","configurations","programs"],"every database content over adversarially similar names, every query form with rrtype, bailiwick, case and aggregation settings",
 "tests run about a hundred fixed queries against one capture; seek/skip logic fails only for particular neighbouring keys",
 [Q,QM,"man/dnstable_lookup.1.txt"],[("query planning","dnstable/query.c query_init_rrset*"),("seeking filters","dnstable/query.c filter_*, dnstable/query_mtbl.c"),("key prefix iteration","dnstable/query.c")],None,["dnstable_reader_query","dnstable_query_iter"])
p("C08","Rdata name queries return exactly the records naming the name",
 "A query by rdata name (exact, left or right wildcard, zero-or-more or exactly-one label) returns every stored record whose rdata, after the fixed-length fields of its type, begins with a matching name - of the types whose rdata is a name, or, when an rrtype is given, of that rrtype - each exactly once, and returns nothing else. Records whose name is preceded by fixed-length fields are found through the name and still shown with their original rdata.",
 ["inputs","configurations","programs"],"every database with name-bearing and non-name-bearing rdata and every query form",
 "the fixed query list samples few types; collisions between raw rdata and names, sliced rdata and wildcard boundaries are not sampled",
 [Q,QM],[("rdata name planning","dnstable/query.c query_init_rdata_name*"),("rrtype pre-filtering","dnstable/query.c")],None,["dnstable_reader_query"])
p("C09","IP queries return exactly the addresses inside the queried block",
 "A query by IPv4 or IPv6 address, by prefix of any length including /0, or by address range returns exactly those A (for IPv4) or AAAA (for IPv6) records whose address lies in the inclusive block, each once and in address order. An empty or inverted range returns nothing, and no other rdata whose bytes happen to fall in the block is returned.",
 ["inputs","configurations"],"all addresses, all prefix lengths 0-32 and 0-128, all ranges, all database contents near the boundaries",
 "tests query a few addresses and prefixes; boundary prefixes (/0, /31, /64, /127), ranges and lookalike rdata are not exercised",
 [Q,"libmy/ip_arith.h"],[("IP planning","dnstable/query.c query_init_rdata_ip, query_set_data_rdata_ip"),("prefix arithmetic","libmy/ip_arith.h")],None,["dnstable_query_set_data","dnstable_reader_query"])
p("C10","Raw rdata and metadata queries return exactly what was asked for",
 "A raw rdata query returns exactly the stored entries whose rdata, in the form it is stored, begins with the given octets (optionally of one rrtype), each once. Version, time-range and source-information queries return exactly the stored entries of that kind. A query object can be executed repeatedly and gives the same result for the same source.",
 ["inputs","programs"],"all rdata octet strings (odd lengths, upper/lower case hex, prefixes of each other) and all metadata contents",
 "few fixed raw queries in tests; records whose rdata extends or prefixes the queried octets, and sliced forms, are not covered",
 [Q,R],[("raw planning","dnstable/query.c query_init_rdata_raw"),("metadata iteration","dnstable/query.c query_init_*")],None,["dnstable_reader_query"])
p("C11","Time filters on aggregated results equal filtering the merged records",
 "For an aggregated query over several source files, with any combination of the four time bounds, the result equals first merging all files and then keeping the records whose merged first-seen and last-seen times satisfy the bounds. In particular the reported times and counts are always those of the full merge, however the times are distributed over files and whether files could be skipped by their time range (records stored with a last-seen of 0 and a later first-seen are outside this property).",
 ["inputs","configurations","programs"],"all partitions of observations over files, all bound combinations, all query forms, with and without per-file time-range entries",
 "tests/test-timefilter uses seven small files and a fixed list of bounds; interaction of pre-filtering, exclusion and refill merging depends on exact time overlaps",
 [Q,QM],[("source pre-filtering","dnstable/query.c time range reader filter"),("remove/fill/join pipeline","dnstable/query_mtbl.c, dnstable/query.c query_iter_fileset")],None,["dnstable_reader_query"])
p("C12","Unaggregated queries return every source's own observation",
 "With aggregation off, a query over several source files returns one entry per file and matching record, carrying that file's own times and count, in record order, and only those that satisfy the filters on their own. Switching aggregation back on combines exactly these entries.",
 ["inputs","configurations"],"all distributions of records over files, all query forms and time bounds",
 "few fixed unaggregated queries exist; duplicate keys in many files with filters and offsets are not covered",
 [Q],[("unaggregated merge","dnstable/query.c query_iter_fileset"),("duplicate ordering","dnstable/query.c")],None,["dnstable_query_set_aggregated","dnstable_reader_query"])
p("C13","An offset skips exactly that many results and nothing else",
 "An RRset or rdata query with offset N returns the results of the same query without offset minus its first N entries, in the same order, for every N including beyond the end. Pages taken with consecutive offsets therefore concatenate to the full result.",
 ["inputs","configurations"],"all queries, filters, aggregation modes and offsets",
 "tests use a couple of offsets on simple queries",
 [Q],[("offset filter","dnstable/query.c filter_offset")],None,["dnstable_query_set_offset"])
p("C14","Timeouts interrupt but never lose, repeat or corrupt results",
 "Under any behaviour of the clock, each call for the next result either returns the next entry, the end, or a timeout indication; after a timeout the iteration can be continued, and the concatenation of all entries returned equals the result without a timeout. A timeout is only reported once the configured timeout or deadline has been reached, and no memory is leaked by interruption.",
 ["schedules","inputs","fault_sequences"],"all placements of clock advances among clock readings, for all queries, filters, timeouts and deadlines",
 "real-time tests cannot place an expiry between two particular intermediate steps",
 [Q,QM,"libmy/my_time.h"],[("timeout longjmp","dnstable/query_mtbl.c timeout_mtbl, dnstable/query.c query_iter_next")],None,["dnstable_iter_next"])
p("C15","Query parameters are accepted exactly when valid, and rejection explains itself",
 "Setting a query's data, rrtype, bailiwick or time filter succeeds exactly for values that are syntactically valid for the kind of query, and otherwise reports failure with a non-empty error message; no value, however malformed, crashes the library. A rejected value leaves the query unchanged.",
 ["inputs","histories"],"all strings and sequences of setter calls",
 "tests only pass valid parameters",
 [Q],[("setters","dnstable/query.c dnstable_query_set_*")],None,["dnstable_query_set_data","dnstable_query_set_rrtype","dnstable_query_set_bailiwick","dnstable_query_set_filter_parameter","dnstable_query_get_error"])
p("C16","Stand-alone filtering agrees with query execution",
 "Applying a query's time bounds, rrtype and bailiwick to a single entry through the stand-alone filter function accepts exactly the entries that satisfy them. Every entry a query returns is accepted by the stand-alone filter of the same query.",
 ["inputs","configurations"],"all entries and all bound combinations including boundary equality and zero times",
 "no test calls the stand-alone filter",
 [Q],[("filter predicate","dnstable/query.c dnstable_query_filter")],None,["dnstable_query_filter"])
p("C17","Iteration statistics are consistent with the work done",
 "For each stage and category an iterator either reports that no counter exists or reports a counter that never decreases during iteration and does not change after the end; an unknown stage or category or a missing place for the count is a failure. The counters agree with what happened: offset-filtered equals the number of entries skipped by the offset, the records counted by the time filters (and the fill and remove stages) equal the otherwise matching records rejected by the time bounds, bailiwick-filtered equals the records with another bailiwick, the merge counters account for every combination of equal keys, and the files counted by the stages add up to the source files used.",
 ["inputs","histories"],"all queries and points during iteration",
 "tests print counters for fixed runs only",
 [Q,QM,"dnstable/iter.c"],[("counters","dnstable/query.c query_iter_get_count, dnstable/query_mtbl.c *_get_counter")],None,["dnstable_iter_get_count"])
p("C18","Readers enumerate each entry kind completely and follow setfile changes",
 "Enumerating a reader yields exactly the entries of the requested kind in key order (RRsets, rdata, both kinds of names, time range, version, source information), for a reader over one source and for a reader over a list of files alike. After the list of files changes and the reader is reloaded, enumerations and queries reflect the new list, merged.",
 ["inputs","histories"],"all database contents and all sequences of file-list changes and reloads",
 "tests use one file and one static setfile and never enumerate a setfile reader",
 [R,"dnstable/iter.c"],[("reader iterators","dnstable/reader.c")],None,["dnstable_reader_iter_*","dnstable_reader_init_setfile","dnstable_reader_reload_setfile"])
p("C19","Composable record streams equal their set-level definition under any seek",
 "The stream operators used to answer queries - join (each left record with the right source's value for the same key merged in), removal (records of the upstream whose key occurs in no excluded source), filter and time-limited pass-through - produce exactly that sequence when read forward, when opened at a key, prefix or range, and after every seek forward or backward. A join whose two values cannot be merged reports a failure at that record.",
 ["inputs","histories"],"all source contents and all interleavings of next and seek",
 "only indirectly reached by the time-filter script on seven small files",
 [QM],[("operators","dnstable/query_mtbl.c ljoin_mtbl, remove_mtbl, filter_mtbl, timeout_mtbl")],None,["*_mtbl_source"])
p("C20","Names of entry types, statistic stages and categories convert both ways",
 "Each defined entry type, statistics stage and statistics category has a distinct name, converting the name back gives the same constant, and unknown names or constants are reported as such. The names are those the documentation and command line use.",
 ["inputs"],"all constants and all strings",
 "tests do not call the inverse conversions",
 [E,"dnstable/util.c"],[("tables","dnstable/util.c, dnstable/entry.c dnstable_entry_type_to_string")],None,["dnstable_stat_*","dnstable_entry_type_*"])
p("C21","Any sequence of API calls is memory-safe and leak-free",
 "For every sequence of creating, configuring, executing, partially consuming, reusing and destroying readers, queries, iterators, entries and formatters, in any legal order, no memory is accessed after release or outside its bounds and all memory is released once everything is destroyed. Destroying a handle clears it, and destroying a cleared handle is harmless.",
 ["histories"],"all legal call sequences with early destruction, reuse and failed operations in between",
 "tests run each program to completion along one path",
 [E,Q,QM,R,"dnstable/iter.c"],[("destructors","dnstable/*.c *_destroy")],None,["dnstable_*_destroy"])
p("C22","dnstable_lookup prints exactly the query results and obeys its options",
 "For every valid command line, dnstable_lookup prints the query's results in the chosen format, one per line in JSON, restricted by its time, offset, rrtype, bailiwick and aggregation options, and exits 0; bad usage or unparsable arguments give a message and non-zero exit without results. Absolute, relative and duration-style times mean what the manual says, and with complete-time-range filtering only records wholly inside the given bounds are shown.",
 ["inputs","configurations"],"all command lines and database contents",
 "the shell test runs a fixed list of commands against one file",
 ["src/dnstable_lookup.c","man/dnstable_lookup.1.txt"],[("option parsing","src/dnstable_lookup.c main, parse_time"),("printing","src/dnstable_lookup.c")],None,["process output"])
p("C23","dnstable_dump prints every entry of the requested kind",
 "dnstable_dump prints every RRset, rdata record or name of the file, as selected by its options, in text or JSON, each exactly once and in file order, and exits 0. Errors are reported by a non-zero exit.",
 ["inputs","configurations"],"all files and option combinations",
 "the shell test dumps one file",
 ["src/dnstable_dump.c","man/dnstable_dump.1.txt"],[("dump loop","src/dnstable_dump.c")],None,["process output"])
p("C24","dnstable_merge hands all its file arguments to the merger unchanged",
 "dnstable_merge invokes the table merger with the dnstable merge functions configured and with exactly the file names it was given, in the given order and unaltered whatever characters they contain. With too few arguments it prints its usage and fails without merging.",
 ["inputs"],"all argument lists, including names with blanks, glob characters and leading dashes",
 "the shell test uses plain names",
 ["src/dnstable_merge.sh.in","man/dnstable_merge.1.txt"],[("wrapper","src/dnstable_merge.sh.in")],None,["argv of mtbl_merge"])
p("C25","Damaged records in a database change no query result",
 "A record that the entry decoder rejects (truncated, extended or with corrupted octets in its key or value, index entries included) is passed over by every kind of query: it does not show up, does not end or abort the iteration, and the entries returned are those that the same query returns when the record is absent. No damaged key makes the library touch memory outside its buffers, whichever type, bailiwick, time bounds or wildcard the query has and whether it reads one table, a merger or a file set. Damaged values of one key in several files, offsets and metadata queries are not covered.",
 ["inputs"],"every database with any damaged records in it, every query without offset",
 "the test databases contain no damaged record; the filters which parse keys and the seek computation for IP blocks see only well-formed keys",
 [Q,QM,E,R],
 [("decode failure skips the record","dnstable/query.c query_iter_next, query_iter_next_name_indirect"),("key filters","dnstable/query.c filter_* functions"),("IP seek","dnstable/query.c filter_rrtype_ip")],None,["dnstable_reader_query","dnstable_iter_next"])
p("C26","Output that cannot be written is never reported as success",
 "When dnstable_dump or dnstable_lookup cannot write all of its output, because the file it goes to takes no more octets, the device is full or standard output is closed, the program says so on standard error and its exit status is not 0; whatever was written is the beginning of the complete output. When everything could be written, status and output are the same as ever.",
 ["inputs","fault_sequences"],"every dump or lookup with output, and every number of octets after which writing fails",
 "the shell tests compare the output of undisturbed runs only",
 ["src/dnstable_dump.c","src/dnstable_lookup.c"],[("end of main","src/dnstable_dump.c main, src/dnstable_lookup.c main")],None,["exit status, standard error and standard output of the programs"])
p("C27","Handles used by parallel threads do not influence each other",
 "Threads which each use their own readers, queries, iterators, entries and formatters, on the same files, get exactly the results, renderings, counts and error texts that they get when they run alone, however their execution is interleaved. The same holds for the merge function and for decoding.",
 ["schedules","inputs"],"every set of operations of several threads on separate handles and every interleaving of their memory accesses",
 "the tests are single-threaded",
 [Q,QM,E,M,R],[("no shared mutable state","all of dnstable/*.c"),("scratch buffers","dnstable/entry.c dnstable_entry_to_text_fmt, dnstable/merge.c merge_rrtype_bitmaps")],None,["dnstable_iter_next","dnstable_entry_to_text","dnstable_entry_format","dnstable_merge_func"])
p("L01","Variable-length integers round-trip and are minimal",
 "Every unsigned 32- and 64-bit value is encoded into the documented base-128 form with as many bytes as the length function states, and decoding or measuring those bytes gives back the value and length. A packed length never exceeds the given buffer, and an unterminated encoding is reported as such.",
 ["inputs"],"all 64-bit values, all byte strings and buffer lengths",
 "no unit test in the baseline covers varints",
 ["libmy/varint.c","libmy/varint.h"],[("codec","libmy/varint.c")],None,["varint_*"])
p("L02","CRC-32C is the standard checksum, however computed",
 "The checksum of every byte string equals the standard CRC-32C (Castagnoli) of it, independent of length, alignment, of which implementation is selected for the processor, and of which implementation is called directly.",
 ["inputs","configurations"],"all byte strings, lengths and alignments, all implementations",
 "crc32c_test has 17 fixed vectors of a few lengths and one alignment",
 ["libmy/crc32c.c","libmy/crc32c-slicing.c","libmy/crc32c-sse42.c"],[("implementations","libmy/crc32c*.c")],None,["my_crc32c"])
p("L03","Base64 encodes and decodes without loss, in any chunking",
 "Encoding any byte string in any sequence of chunks gives its standard base64 text (ignoring line breaks), and decoding that text in any sequence of chunks gives back the bytes. Characters outside the alphabet are skipped, and no write goes beyond the documented output size.",
 ["inputs","histories"],"all byte strings and chunkings, and all texts",
 "no baseline test covers base64",
 ["libmy/b64_encode.c","libmy/b64_decode.c"],[("codec state machines","libmy/b64_*.c")],None,["base64_*"])
p("L04","Base32hex encodes and decodes without loss",
 "Encoding any byte string gives its unpadded base32hex text, and decoding that text, in upper or lower case, into a buffer of the original size gives back the bytes. Text containing a character outside the alphabet is rejected, and output that does not fit is cut off without writing outside the buffer.",
 ["inputs"],"all byte strings and texts",
 "no baseline test covers base32",
 ["libmy/b32_encode.c","libmy/b32_decode.c"],[("codec","libmy/b32_*.c")],None,["base32_*"])
p("L05","Hexadecimal text is decoded exactly or rejected",
 "Every even-length string of hexadecimal digits in any case decodes to its bytes, and everything else is rejected.",
 ["inputs"],"all strings",
 "no baseline test covers it",
 ["libmy/hex_decode.h"],[("decoder","libmy/hex_decode.h")],None,["hex_decode"])
p("L06","IP prefix arithmetic gives the exact bounds of a block",
 "For every address and every prefix length from 0 to the address size, the lower bound clears and the upper bound sets exactly the host bits, and incrementing an address adds one with carry across all octets.",
 ["inputs"],"all IPv4 and IPv6 addresses and prefix lengths",
 "no baseline test covers it",
 ["libmy/ip_arith.h"],[("bounds","libmy/ip_arith.h")],None,["ip4_*","ip6_*"])
p("L07","Growable vectors and byte buffers behave like lists",
 "Under every sequence of operations a growable vector or byte buffer holds exactly the sequence of elements that a list subjected to the same operations would hold, reports the matching size and byte count, and never accesses memory outside its storage.",
 ["histories","inputs"],"all sequences of add, append, reserve, clip, advance, reset, detach, formatted append and C-string operations",
 "no baseline test covers them",
 ["libmy/vector.h","libmy/ubuf.h"],[("macros","libmy/vector.h"),("byte buffer helpers","libmy/ubuf.h")],None,["vector macros","ubuf_*"])
p("L08","The heap always yields the smallest element",
 "Under every sequence of pushes, pops, replacements and clears with any consistent comparison function, the heap's top is a smallest element, popping returns all pushed elements in non-decreasing order, and nothing is lost or duplicated. An empty heap yields nothing.",
 ["histories"],"all operation sequences and comparison functions, with many equal elements",
 "no baseline test covers it",
 ["libmy/heap.c"],[("sift operations","libmy/heap.c")],None,["heap_*"])
p("L09","The single-producer queue delivers every item once, in order",
 "For both queue implementations and every power-of-two capacity, the items received by one consumer thread are exactly the items successfully sent by one producer thread, in order and with intact contents, under every interleaving. A full queue refuses a send and an empty one refuses a receive, and the reported remaining space or count is correct.",
 ["schedules","histories"],"all interleavings of one producer and one consumer, all sizes and element sizes",
 "no baseline test covers it",
 ["libmy/my_queue.c","libmy/my_queue_mb.c","libmy/my_queue_mutex.c"],[("queue","libmy/my_queue_*.c")],None,["my_queue_*"])
p("L10","A file set tracks the listed files, loading and unloading each once",
 "After every reload a file set holds exactly the files named in its list that are loadable, in sorted order; files that stay listed keep their loaded object, new files are loaded once, and dropped files are unloaded once. Destroying the set unloads everything still loaded, and an unchanged list (same inode and modification time) or an unreadable one changes nothing.",
 ["histories","fault_sequences"],"all sequences of edits to the list (adding, removing, duplicating, reordering, missing files, missing list) and reloads",
 "no baseline test covers it",
 ["libmy/my_fileset.c"],[("reload","libmy/my_fileset.c my_fileset_reload")],None,["my_fileset_*"])
p("L11","A spool directory hands out each spooled file exactly once",
 "Every regular file placed in the incoming directory of a spool is handed out exactly once, with unchanged contents, at the returned path in its active directory, and no other file is moved, changed or deleted (except an active file of the same name, which is replaced). Hidden files and non-regular files are left alone, nothing is handed out when nothing waits, and neither reopening the spool at any point nor a failure to move a file loses a waiting file or holds up the others.",
 ["histories","crash_points"],"all sequences of file arrivals, fetches, removals and reopenings",
 "no baseline test covers it",
 ["libmy/spooldir.c"],[("spool","libmy/spooldir.c")],None,["spooldir_*"])
p("L12","Linked lists and balanced trees keep order and content",
 "Under every sequence of insertions, removals and lookups, the list macros hold the same sequence as a reference list, and the splay and red-black tree macros hold the same ordered set as a reference set, with correct find, nearest-greater, min, max, next and previous answers. The red-black tree keeps its colour and depth rules after every operation.",
 ["histories"],"all operation sequences",
 "no baseline test covers them",
 ["libmy/list.h","libmy/tree.h"],[("macros","libmy/list.h, libmy/tree.h")],None,["ISC_LIST_*","RB_*","SPLAY_*"])
p("L13","Command-line parsing assigns each option exactly as declared",
 "For every option table and argument vector: each option given by its letter, its long name or an unambiguous start of it (a complete name is never ambiguous), with its value joined by = or in a later word, in order, stores exactly that value with the declared type; flags set, clear or count as declared; arrays collect all values in order; remaining words become the declared operands in order; and unknown or ambiguous options, missing values, missing mandatory options or operands, combinations declared exclusive and surplus words are refused. Words from argument files and the environment count as if given in place, and afterwards the program can tell which entries were given and show every value; what a word that is no value of the declared type gives is unspecified.",
 ["inputs","configurations"],"all option tables and argument vectors",
 "no baseline test covers it",
 ["libmy/argv.c"],[("parser","libmy/argv.c argv_process")],None,["argv_process"])
p("L14","Time arithmetic is exact and normalised",
 "Adding, subtracting, comparing and converting time values gives the arithmetically correct, normalised result (nanoseconds between 0 and 999999999) for all representable inputs. Conversions between time values and seconds agree within floating-point precision. A sleep lasts for the time asked for, however often it is interrupted.",
 ["inputs"],"all normalised time values and durations",
 "no baseline test covers it",
 ["libmy/my_time.h"],[("timespec helpers","libmy/my_time.h")],None,["my_timespec_*","my_nanosleep"])
p("L15","String helpers transform exactly what they are documented to",
 "Replacing a non-empty substring replaces every non-overlapping occurrence from left to right and nothing else; number and byte formatting produces the standard decimal or hexadecimal text, cut off at the buffer's size; quoted printing escapes quotes and unprintable bytes; reading a number of bytes returns exactly those bytes or failure; and reading an integer setting from the environment yields the number it spells, failing if it is absent or followed by anything else. None of them reads or writes outside its arguments.",
 ["inputs","fault_sequences"],"all strings, numbers, short reads and environment values",
 "no baseline test covers them",
 ["libmy/string_replace.h","libmy/my_format.c","libmy/read_bytes.h","libmy/getenv_int.h","libmy/print_string.h"],[("helpers","libmy/*.h")],None,["string_replace","my_format_*","read_bytes","getenv_int","print_string"])
p("L16","Zone files are read completely and in order",
 "Reading a zone file that starts with an SOA record yields every resource record up to the end of the file or the closing SOA exactly once and in file order, with its owner, type, class, TTL and rdata as written, then the end; the reported zone name, serial and record count match the file. A malformed line is reported as an error, not silently dropped, as is a file that cannot be read or decompressed to its end; a file that cannot be opened or does not start with an SOA is refused.",
 ["inputs"],"all zone files over a grammar of records, origins, TTLs and layouts",
 "no baseline test covers it",
 ["libmy/zonefile.c"],[("reader","libmy/zonefile.c")],None,["zonefile_*"])
p("L17","Hash functions depend on exactly the key bytes, length and seed",
 "The 32-bit hash of a byte string equals the published lookup3 value for that string and seed, independent of the string's alignment, and the paired variant's primary value equals the single variant. No byte outside the key influences the hash or is accessed beyond the enclosing aligned word.",
 ["inputs"],"all byte strings, lengths, alignments and seeds",
 "no baseline test covers it",
 ["libmy/lookup3.c"],[("hash","libmy/lookup3.c")],None,["my_hashlittle","my_hashlittle2","my_hashword"])
p("L18","Thread numbers are unique and stable; atomic updates are never lost",
 "Every thread that registers gets a number that stays constant for its life and differs from the number of every other registered thread, with numbers handed out consecutively. Concurrent atomic additions and decrements are never lost, and the operations that test for zero report it to exactly one thread.",
 ["schedules"],"all numbers of threads and interleavings of their operations",
 "no baseline test covers it",
 ["libmy/threadnum.c","libmy/atomic.h","libmy/atomic_64.h"],[("thread ids","libmy/threadnum.c"),("atomics","libmy/atomic*.h")],None,["my_threadnum"])
p("L19","A rate limiter holds its callers to the rate and no longer",
 "Without adjustment, at most one call of a rate limiter returns per period (the inverse of the rate, whether or not that divides a second), however callers pause and sleeps wake up late or are interrupted; no call is put to sleep for longer than a period, and one that comes a period or more after the previous return is not put to sleep. With adjustment every so many events, the average since the first call of a caller that is always ready stays close to the rate, for rates from one per second up and every adjustment interval, and the period never degenerates.",
 ["inputs","histories"],"all rates, adjustment intervals, call histories, late wake-ups and interrupted sleeps, under both clocks",
 "no baseline test covers it",
 ["libmy/my_rate.c"],[("rate limiter","libmy/my_rate.c")],None,["my_rate_init","my_rate_sleep","my_rate_destroy"])
p("L20","Objects give back everything they took, however they were used",
 "After any history of operations on a heap, vector, byte buffer, queue, file set, spool directory, zone file or option table - including refused words, files that vanish or cannot be read, and moves that fail - destroying or cleaning up the object returns all memory it took, leaves no file descriptor open and no child process behind. It never frees what it did not allocate: a default value the program stored in a string option, whether or not the option was given, stays the program's own. Memory handed to the caller is the caller's to free.",
 ["inputs","histories"],"all operation histories on every kind of libmy object, ended at any point",
 "no baseline test covers it",
 ["libmy/heap.c","libmy/vector.h","libmy/ubuf.h","libmy/my_queue.c","libmy/my_fileset.c","libmy/spooldir.c","libmy/zonefile.c","libmy/argv.c"],[("file set","libmy/my_fileset.c"),("spool directory","libmy/spooldir.c"),("zone file","libmy/zonefile.c"),("option table","libmy/argv.c")],None,["my_fileset_destroy","spooldir_destroy","zonefile_destroy","argv_cleanup"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
