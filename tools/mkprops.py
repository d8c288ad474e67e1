#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})

AI, BR, LR, DV = ["warcio/%s.py" % n for n in ("archiveiterator", "bufferedreaders", "limitreader", "digestverifyingreader")]
RL, RB, WW, SH = ["warcio/%s.py" % n for n in ("recordloader", "recordbuilder", "warcwriter", "statusandheaders")]
CH, CK, EX, IX, RC, UT, TU, CLI = ["warcio/%s.py" % n for n in ("capture_http", "checker", "extractor", "indexer", "recompressor", "utils", "timeutils", "cli")]

prop("C01", "Reading does not depend on how the bytes arrive",
     "Iterating a well-formed WARC or ARC archive, uncompressed or gzipped one member per record, yields exactly the records stored in it, in order, each with its stored type, record headers, HTTP status line and headers, and payload bytes. "
     "The result is the same however the input stream splits the archive into reads, whatever block size the reader uses, and whether or not the stream can seek or report its position. "
     "Reading an ARC with ARC-to-WARC conversion yields the same records with the equivalent WARC type, target URI, IP address, date and block.",
     ["schedules", "inputs", "configurations"],
     "for every well-formed archive, every fragmentation of the byte stream into reads, every block size and stream capability",
     "Tests read a dozen fixed files through whole-file BytesIO or disk reads with the default block size; buffer boundaries inside a line, a gzip header or a member end are never hit.",
     [AI, BR, LR, RL, SH],
     [("refill loop that joins lines and reads across buffer boundaries", BR), ("format detection and header parsing", RL), ("gzip member hand-over between records", AI)],
     [("buffer / unused_data", "bytes already taken from the stream but not yet handed to the record", BR), ("next_line", "first line of the next record read ahead", AI)],
     ["ArchiveIterator(fileobj, block_size=..., arc2warc=...)", "record.rec_headers/http_headers/raw_stream"])

prop("C02", "Record boundaries survive every way of consuming the records",
     "A record's stream returns exactly that record's own bytes, in order and never any byte of another record, whatever mix of bounded and unbounded reads and line reads the caller issues. "
     "Whatever the caller did with one record (ignored it, read part, over-read it, read its decoded content, asked for its offset), every later record is yielded complete and unchanged.",
     ["schedules", "inputs", "histories"],
     "for every archive, every interleaving of per-record reader calls with iteration, and every fragmentation of the input",
     "Tests either read a record to the end or skip it; interleavings of partial reads, line reads, decoded reads and position queries with iteration under fragmented input are not sampled.",
     [AI, LR, BR, RL],
     [("stream limited to the declared record length", LR), ("drain of the unread rest before the next record", AI)],
     [("limit", "bytes of the record still unread", LR)],
     ["record.raw_stream.read/readline", "record.content_stream()", "next(iterator)"])

prop("C03", "Reported offsets and lengths locate exactly the record",
     "For every record of a well-formed archive the reported offset is the position of the record's first stored byte and the reported length the size of its stored bytes (the whole gzip member when compressed, header and block without the separator when not). "
     "The values are the same whenever during the record's turn they are asked for and however the input is delivered, and reading the archive from that offset, or just that slice of it, yields that same record.",
     ["inputs", "schedules", "histories"],
     "for every archive, starting position, delivery schedule, and point at which offset and length are queried",
     "Tests assert offsets for a handful of fixed files read with full-size reads; the arithmetic over buffered, decompressed and left-over bytes is only wrong at particular buffer states.",
     [AI, BR],
     [("position minus buffered remainder", AI), ("remaining-bytes accounting", BR)],
     [("member_info", "offset and length of the current record", AI)],
     ["get_record_offset()", "get_record_length()", "re-reading at the offset"])

prop("C04", "Decoded content equals the original entity for any delivery",
     "A record's content stream returns exactly the entity body that was chunk-encoded and/or compressed (gzip, zlib or raw deflate, brotli) into the payload, for every chunk layout including extensions and trailers, every sequence of read sizes and every arrival of the bytes. "
     "If a payload declared chunked or compressed is not, its bytes are delivered unchanged; if it was cut off mid-chunk, everything before the cut is delivered and nothing else.",
     ["inputs", "schedules", "fault_sequences"],
     "for every entity, encoding, chunk layout, truncation point, read-size sequence and fragmentation",
     "Tests decode a few short constant bodies with one read size; chunk headers and terminators straddling buffers, tiny compressed outputs and cut-offs at each position are not reached.",
     [BR, RL],
     [("chunk header parsing with fall-back to raw", BR), ("decompress-or-pass-through on first data", BR), ("encoding selection", RL)],
     [("not_chunked / all_chunks_read", "mode of the de-chunker", BR)],
     ["record.content_stream().read(n)", "record.content_stream().readline()", "ChunkedDataReader, BufferedReader"])

prop("C05", "A torn archive still yields every complete record",
     "When an archive ends at an arbitrary byte (a crashed writer, a cut-off download), reading it yields every record that is completely present, unchanged and in order. "
     "It then yields at most one further, truncated record whose payload is a prefix of the stored one, and either ends or raises the library's archive-loading error; it never hangs, never raises anything else and never invents data.",
     ["crash_points", "inputs", "schedules"],
     "for every archive, every truncation point, compressed or not, and every delivery schedule",
     "One fixed truncated file is tested; every other cut position (inside a header line, a gzip header, a trailer, a separator) is not.",
     [AI, BR, RL, SH, LR],
     [("end-of-stream handling in the header parsers", SH), ("end-of-stream handling in the refill loop", BR), ("record loop", AI)],
     (), ["ArchiveIterator over a prefix of an archive"])

prop("C06", "Input errors are reported, never mistaken for the end of the archive",
     "If reading the underlying stream fails with an I/O error, the library call that needed those bytes raises an error to its caller instead of returning short data, ending the iteration or yielding a record made of partial data, and the records yielded before are unaffected. "
     "The index, check and extract commands likewise fail visibly instead of finishing as if the archive had ended.",
     ["fault_sequences", "inputs", "schedules"],
     "for every archive and every position and kind of read failure (I/O error, timeout, connection reset) while iterating, reading content, indexing, checking or extracting",
     "No test makes a read fail.",
     [AI, BR, LR, RL, IX, CK, EX, UT],
     [("absence of error-swallowing around stream reads", BR), ("file opening with guaranteed close", UT)],
     (), ["exceptions from next(), read(), readline() and the CLI commands"])

prop("C07", "What is written is what is read back",
     "Any sequence of records written (each created from a buffer, stream, parsed HTTP message or header object, of any record type, gzip or not, WARC/1.0 or 1.1, with known or unknown length, or copied from another archive) is read back as the same sequence with the same type, target URI, WARC headers, HTTP status and headers, and payload. "
     "This holds however the payload source delivers its bytes and whether or not it can seek.",
     ["inputs", "schedules", "histories", "configurations"],
     "for every sequence of record constructions and writes, payload source behaviour and writer configuration",
     "Tests write about a dozen constant records from in-memory buffers; payload sizes around buffer and spool limits, short-reading and unseekable sources and long sequences are not covered.",
     [WW, RB, RL, SH, AI],
     [("buffering of sources without length or seek", RB), ("header serialisation and length computation", WW)],
     [("payload_length", "payload size used for Content-Length", WW)],
     ["WARCWriter/BufferWARCWriter.write_record", "RecordBuilder.create_*", "ArchiveIterator"])

prop("C08", "Every written record is correctly framed and its digests are true",
     "Every record the writer outputs has a Content-Length equal to its actual block size, a block digest that is the digest of exactly that block, a payload digest that is the digest of the payload where one is added, the mandatory type, id and date headers, and the record separator after it. "
     "With gzip each record is exactly one complete gzip member, and for a request/response pair the request refers to the response's id and carries its target URI and date.",
     ["inputs", "schedules", "histories", "configurations"],
     "for every record construction path, header content, payload source and writer configuration",
     "Tests compare constant records byte for byte; the invariant must hold for arbitrary headers, sizes, sources and copies of foreign records.",
     [WW, RB, SH],
     [("digest computation before the header is written", RB), ("Content-Length from the serialised headers and payload", WW), ("one compressor per record", WW)],
     (), ["raw bytes given to the output file"])

prop("C09", "Acknowledged records survive a crash of the writing process",
     "Once writing a record (or a request/response pair, or a captured HTTP exchange) has returned to the caller, all its bytes have been handed to the output file and flushed, so a process crash at any later instant loses nothing of it. "
     "After a crash at an arbitrary point the file consists of the acknowledged records, complete and in order, followed by at most an incomplete tail.",
     ["crash_points", "histories", "schedules"],
     "for every write history, output buffering and crash instant inside or between writer calls",
     "No test crashes the process; in-memory outputs make a missing flush invisible.",
     [WW, CH, RB],
     [("flush at the end of each record", WW), ("records written when the response is finished", CH)],
     (), ["surviving bytes of a simulated file after a simulated crash"])

prop("C10", "Write failures surface and never damage earlier records",
     "If the output file, a temporary buffer or the payload source fails while a record is created or written, the call raises an error to its caller and the record is not reported as written. "
     "The bytes of all records acknowledged before stay intact, and once the fault is gone (and the torn tail cut off) the same writer continues to write well-formed records.",
     ["fault_sequences", "histories"],
     "for every write history and every position and kind of failure (disk full, I/O error on write or flush, partial write, temporary-file failure, payload source error)",
     "No test makes an output, a temporary file or a payload source fail.",
     [WW, RB, CH],
     [("exceptions propagate through the write path", WW), ("temporary buffering", RB)],
     (), ["exceptions from create_*/write_*", "bytes of the simulated output"])

prop("C11", "Digest checking accepts intact records and rejects damaged ones",
     "With digest checking on, a completely read record whose stored block and payload match their digests (base32, base16 or base64 form, any supported algorithm) is reported as passing, and one whose digested bytes were altered or cut short is reported as a problem (recorded, logged or raised as configured) and never as passing. "
     "The verdict does not depend on how the caller reads the record or how the bytes arrive.",
     ["inputs", "fault_sequences", "schedules"],
     "for every record with digests, every stored-byte flip or truncation in it, every read pattern and fragmentation",
     "Tests alter the digest text of two fixed files; they do not flip stored data, truncate, vary read patterns or cover algorithms and encodings together.",
     [DV, RL, UT, LR],
     [("incremental digests updated on every read", DV), ("comparison when the record is exhausted", DV)],
     [("passed / problems", "verdict", DV)],
     ["record.digest_checker.passed/problems", "ArchiveIterator(check_digests=True|'log'|'raise')"])

prop("C12", "HTTP capture records exactly what was exchanged",
     "Every HTTP exchange completed inside a capture context is written as a response record followed by its request record, holding the status or request line, headers and body bytes exactly as received and sent (as far as the client read the response), with the right target URI, remote IP and proxy. "
     "This holds for any network fragmentation and timing, for connection reuse, proxies and tunnels, and when several connections of one context are used interleaved; a filter decides per exchange whether and what is written.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "for every sequence of exchanges over any number of connections, every request and response shape, every network delivery schedule and every order in which responses are consumed",
     "Tests capture single exchanges from a loopback server one after another; interleaved connections, stale per-context state, fragmented and reset connections are not covered.",
     [CH, RB, WW],
     [("recording wrapper around the response file object", CH), ("request bytes recorded after being sent", CH), ("URL reconstruction from request line and tunnel state", CH)],
     [("recorder buffers and url", "exchange being recorded", CH)],
     ["capture_http()", "http.client / urllib / requests clients on a simulated network"])

prop("C13", "HTTP capture is transparent to the client",
     "With capture active a client observes the same status, headers, body bytes and errors, in the same order and with every way of reading a response, as it would without capture, for healthy and for failing connections. "
     "The bytes sent to the server are the same. A connection opened outside every capture context is never recorded and behaves as without warcio; one opened in a context keeps being recorded after it while its output is open.",
     ["schedules", "inputs", "fault_sequences"],
     "for every client program, response shape, network schedule and network fault (reset, early close, timeout, garbage response)",
     "Tests only look at successful bodies through requests; other ways of reading a response and failing connections under capture are not exercised.",
     [CH],
     [("response file wrapper forwards every read operation", CH), ("original send and connect are called unchanged", CH)],
     (), ["differential run of the same client with and without capture on the same simulated network"])

prop("C14", "Concurrent captures do not interfere",
     "When several threads use HTTP at the same time, each capture context records exactly the exchanges of its own thread, threads without one are not recorded, and no exchange is lost, duplicated or mixed with another. "
     "When contexts share one writer, or connections of one context are used from several threads, every record in the output is still contiguous and well formed and each request/response pair is adjacent.",
     ["schedules", "histories"],
     "for every interleaving of threads opening capture contexts, sending, receiving and closing",
     "Tests are single threaded.",
     [CH, WW],
     [("thread-local current recorder", CH), ("lock around writing a pair", CH)],
     [("thread-local recorder", "active capture of the thread", CH)],
     ["capture_http() from several scheduled threads"])

prop("C15", "Capture output files are appended to or created, never clobbered",
     "Capturing to a file name appends complete records after the existing content by default and refuses an existing file when append is off, in both cases leaving every existing byte unchanged. "
     "However the context is left (normally, by an exception, with failing I/O, nested in another context) the file is closed, capturing stops for that context, and an enclosing context continues.",
     ["histories", "fault_sequences", "configurations"],
     "for every sequence of capture sessions over the same files, nesting, exceptions and open/write failures",
     "Tests cover one append and one refused overwrite; exceptions, nesting and I/O failures are not covered.",
     [CH, UT],
     [("open mode selection", CH), ("try/finally around the context body", CH)],
     [("thread-local recorder", "active capture of the thread", CH)],
     ["file contents and capture state after each session"])

prop("C16", "Recompression preserves every record and repairs the container",
     "Recompressing any readable WARC or ARC (uncompressed, gzipped per record, gzipped as a whole or in wrong pieces) reports success and writes a WARC holding the same records in the same order with the same headers, HTTP headers and payload, one gzip member per record, each correctly framed and passing its digests if it did before. "
     "Recompressing the result again changes no record, and the outcome does not depend on how the input is delivered.",
     ["inputs", "configurations", "schedules"],
     "for every archive, container layout and delivery schedule",
     "Tests recompress four fixed files and compare counts.",
     [RC, AI, WW, BR],
     [("direct copy with fall-back to full decompression", RC), ("multi-member decompression", BR), ("record re-writing", WW)],
     (), ["warcio recompress: output file, exit status, message"])

prop("C17", "Recompression never reports success with records missing",
     "If recompression of an intact archive meets I/O faults (read errors, disk full, write or flush errors, temporary file failures) it either finishes reporting success with every record of the input in the output, or reports failure with a non-zero exit status. "
     "The input file is never modified.",
     ["fault_sequences", "inputs"],
     "for every archive and every sequence of faults on input, output and temporary storage",
     "No test injects a fault.",
     [RC, UT, WW],
     [("catch-all with failure exit", RC), ("output closed before success is reported", UT)],
     (), ["warcio recompress exit status, message and output file"])

prop("C18", "The index lists exactly the records of its inputs",
     "Indexing prints one JSON line per record, in input order, whose requested fields carry the record's actual offset, length, file name, WARC header values and HTTP status and header values, and omits fields the record does not have. "
     "The lines are the same for any delivery of the input, including a pipe on standard input or a remote file system, and for any number of inputs.",
     ["inputs", "schedules", "configurations"],
     "for every archive, field list, number and kind of inputs and delivery schedule",
     "Tests compare the index of fixed local files and one pipe.",
     [IX, AI, UT, CLI],
     [("field lookup per record", IX), ("iteration over inputs", IX), ("remote or local file opening", UT)],
     (), ["warcio index output"])

prop("C19", "The check command fails exactly when a record fails its digests",
     "Checking a set of archives exits with status 1 if and only if some record's stored bytes contradict its digests or an archive cannot be loaded, and 0 otherwise, whatever the order, number and delivery of the inputs. "
     "It reports the failing records (and in verbose mode every record) with their actual offset, id and type, and one bad file does not keep the others from being checked.",
     ["inputs", "fault_sequences", "schedules"],
     "for every set of archives, every damage to any of them and every delivery schedule",
     "Tests check fixed good files and one fixed bad file.",
     [CK, DV, AI, CLI],
     [("exit value accumulated over files", CK), ("full read of every record before the verdict", CK)],
     (), ["warcio check exit status and output"])

prop("C20", "Extraction outputs exactly the record at the offset",
     "Extracting at a record's offset outputs exactly that record: its WARC headers, HTTP headers and raw payload, or only the headers, or only the decoded payload, as requested. "
     "No byte of a neighbouring record is output and nothing is lost, for any archive format, record size and delivery of the input.",
     ["inputs", "schedules"],
     "for every record of every archive, each output mode and delivery schedule",
     "Tests extract three records from fixed files.",
     [EX, AI, LR, BR, SH],
     [("seek and read of a single record", EX), ("copy loop", EX)],
     (), ["warcio extract output"])

prop("C21", "Damage stays contained and reading always terminates",
     "Damage to an archive after some record (flipped, inserted, removed or overwritten bytes) does not change the records before it, which are still yielded unchanged. "
     "On arbitrarily damaged input reading finishes after a number of steps bounded by the input size, each record stream ends, and the only error raised is the library's archive-loading error.",
     ["inputs", "fault_sequences", "schedules"],
     "for every archive, every corruption and every delivery schedule",
     "Tests read three fixed broken files.",
     [AI, BR, RL, SH, LR, TU],
     [("tolerant header parsing", SH), ("invalid length handling", RL), ("resynchronisation after a bad record", AI)],
     (), ["ArchiveIterator over damaged archives"])

prop("C22", "Record ids are unique and dates are the true UTC time",
     "No two records created ever share a record id, whatever the clock does (frozen, stepping back) and in whatever process or thread they are created. "
     "A generated record date is the UTC time at which the record was created, to the second for WARC/1.0 and to the microsecond for WARC/1.1, independent of the local time zone, and a caller-supplied id or date is kept.",
     ["schedules", "histories", "configurations"],
     "for every clock behaviour, time zone, process restart and creation history",
     "Tests normalise ids and dates away or run in UTC with a moving clock.",
     [RB, SH, TU, WW],
     [("random id per record", SH), ("current UTC date per record", RB)],
     (), ["WARC-Record-ID and WARC-Date headers under a simulated clock and entropy source"])

prop("C23", "A length-limited stream never passes its limit",
     "A stream limited to N bytes hands out exactly the first N bytes of its source (fewer only if the source ends) and then end-of-stream, for every sequence of sized, unsized, zero and negative-size reads and line reads, and never takes more than N bytes from the source. "
     "Limiting a stream that is already limited never widens the limit, and the reported position is the number of bytes handed out.",
     ["schedules", "inputs", "histories"],
     "for every source content, limit, short-read behaviour of the source and call sequence",
     "Tests issue four fixed calls on one string.",
     [LR],
     [("minimum of requested size and remaining limit", LR)],
     [("limit", "bytes still allowed", LR)],
     ["LimitReader.read/readline/tell/wrap_stream"])

prop("C24", "Buffered reads and line reads equal the plain byte sequence",
     "A buffered reader returns, over any sequence of read and line-read calls, exactly the bytes of its source (decompressed if asked, over all members if asked), each line read returning up to and including the next newline or the given maximum, and each sized read the full size unless the data ends. "
     "This holds for every buffer size and every way the source splits its data; data not compressed although announced so is passed through unchanged.",
     ["schedules", "inputs", "configurations", "histories"],
     "for every source content, compression layout, buffer size, source fragmentation and call sequence",
     "Tests use strings shorter than the buffer.",
     [BR],
     [("refill and join loop", BR), ("member hand-over", BR)],
     [("buff / starting_data", "data taken from the source but not handed out", BR)],
     ["BufferedReader/DecompressingBufferedReader.read/readline"])

prop("C25", "Reading and writing through a buffer writer never disturb each other",
     "At any point of a history of writes and content queries on an in-memory writer, the content returned is the concatenation of all records written so far, complete and in order. "
     "Reading the content between writes, including through the stream the writer hands out, changes neither what was written nor where later records go.",
     ["histories"],
     "for every interleaving of record writes, content queries and stream reads, with contents below and above the memory spool limit",
     "Tests query the content once, after the last write.",
     [WW, RB],
     [("position save and restore around content queries", WW), ("spooled temporary storage", RB)],
     [("position of the spool file", "where the next record goes", WW)],
     ["BufferWARCWriter.get_contents/get_stream/write_record"])

prop("C26", "A wrongly compressed archive is reported, never silently shortened",
     "An archive compressed as a whole, or with several records in one gzip member, is refused with an error that names the cause and the remedy (recompression) by iteration, index and check, however the members are cut, after the records before the fault were delivered correctly. "
     "An archive whose members hold one record each is never refused, and in no case does reading end normally with records missing.",
     ["inputs", "schedules", "configurations"],
     "for every archive, grouping of its records into members, way of reading and source fragmentation",
     "Tests use three fixed files.",
     [AI, BR, IX, CK],
     [("end of member and next record detection", AI), ("member hand-over", BR)],
     (), ["ArchiveIterator, warcio index, warcio check on whole-file and grouped gzip files"])

prop("C27", "Records are handed out as soon as their bytes have arrived",
     "Reading an archive from a pipe or socket that is still being written, a record is handed out, and its content read, without waiting for data beyond what is needed to tell where it ends: no read is issued on the source once the bytes needed for the answer have arrived. "
     "So a consumer following a live producer is never blocked on a record that is already there.",
     ["schedules", "histories"],
     "for every archive, split of its bytes into arrivals and sequence of calls of the consumer",
     "Tests read from files, which never make a reader wait.",
     [AI, BR, LR],
     [("buffer refill", BR), ("record start detection", AI)],
     (), ["read calls on the underlying stream versus bytes delivered"])

prop("C28", "Memory use does not grow with the size or number of records",
     "Iterating, checking, indexing, extracting, recompressing, copying and writing records from a stream, and capturing traffic, hold no more than a fixed amount of memory however large or numerous the records are, provided the caller reads in pieces; larger data is kept in temporary files. "
     "A single line, one chunk of a chunked body and the expansion of one block of compressed data may be held.",
     ["inputs", "configurations"],
     "for every operation, record size and count, container and delivery of the data",
     "Tests use records of a few kilobytes.",
     [AI, BR, LR, RB, WW, CH],
     [("spooled temporary storage", RB), ("reading in pieces", WW)],
     (), ["memory allocated, sampled at every simulated I/O call"])

prop("C30", "Timestamp, ISO date and HTTP date conversions agree",
     "Converting between 14-digit timestamps, ISO 8601 dates, HTTP dates, seconds and datetimes preserves the instant, and partial or out-of-range timestamps are padded and clamped to a valid instant.",
     ["inputs"], "for every timestamp or date string",
     "Doctests sample a few dozen strings.",
     [TU], [("padding and clamping", TU)])

prop("C31", "HTTP header values are encoded to ASCII without changing ASCII ones",
     "Serialising HTTP headers yields pure ASCII bytes, leaves ASCII-only headers unchanged and percent-encodes others so that the original text can be decoded, and header lookup, replacement and removal are case-insensitive and affect only the named header.",
     ["inputs"], "for every header list",
     "Tests sample three header lists.",
     [SH], [("percent encoding of non-ASCII headers", SH)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
