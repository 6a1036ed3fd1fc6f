#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

ENC = "ebi/src/api/encoder.rs"; ENC2 = "ebi/src/encoder.rs"; DEC = "ebi/src/api/decoder.rs"; DEC2 = "ebi/src/decoder.rs"
CR = "ebi/src/decoder/chunk_reader"; CO = "ebi/src/compressor"

p("C01", "Encode/decode round trip under every benign I/O schedule",
  "For every compression scheme, chunking option and sequence of records in the scheme's domain, encoding a stream and decoding the file returns exactly those records in order: bit for bit for the lossless schemes; for the two quantising ones (BUFF, Delta-Sprintz) whose domain is decimals on the configured scale within its representable magnitude, the value at that scale. How the input, file and output streams split, delay, buffer or interrupt (EINTR) individual reads and writes never matters. An input whose length is not a whole number of records yields its whole records.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every scheme x parameter x chunk option x record sequence x sequence of short, delayed and interrupted I/O calls on all three streams",
  "The round-trip tests feed in-memory slices and cursors which always transfer everything in one call; no test ever sees a short read, a short write or an interrupted call, and each uses one data shape.",
  [ENC, ENC2, DEC, DEC2, CR, CO, "ebi/src/io", "ebi/src/compression_common", "ebi/src/format"],
  [("record reader that fills a chunk from short reads", ENC2), ("whole-chunk reads", CR), ("per-scheme codec pairs", CO)],
  ["bytes materialized by the decoder"])
p("C02", "The encoded file is a function of the records and the configuration only",
  "Two encodings of the same records with the same scheme, parameters and chunk option produce byte-identical files except for the recorded timings, however the streams fragment, interrupt or delay I/O, whatever the clock reads, whether or not the output is buffered, and whether codec state is fresh or reused from previous chunks. Chunk boundaries depend only on the chunk option: each chunk but the last holds exactly the configured number of records, and a single whole-file chunk is produced when no limit is set.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every pair of I/O schedules, clock readings and codec-reuse histories for one dataset and configuration",
  "Tests never encode the same data twice under different delivery schedules and never compare file bytes.",
  [ENC, ENC2, CO], [("compressor reset and reuse between chunks", ENC2), ("chunk limit", ENC2)],
  ["bytes of the encoded file with timing fields masked", "chunk footers"])
p("C03", "Encoding never reports success for an incomplete file",
  "If any read of the input or any write, seek or flush of the output fails for good during encoding, or a flush reports that bytes were lost, encoding returns an error and does not panic or hang. A chunk option without room for a record does not lose the input silently either. When encoding returns success, the sink has accepted and flushed every byte of a complete file that decodes to the whole input.",
  ["fault_sequences", "inputs", "configurations"],
  "every I/O call of an encoding run x every failure kind (EIO, ENOSPC, zero-length write, broken seek, failed flush, input error), buffered or not",
  "No test injects an I/O failure; sinks are in-memory vectors that cannot fail.",
  [ENC, ENC2, "ebi/src/encoder/error.rs"], [("error propagation from every stream call", ENC2), ("final flush", ENC)],
  ["result of encode", "bytes accepted by the sink"])
p("C04", "A crash while encoding never leaves a wrong dataset behind",
  "If encoding is cut off at any instant or fails half way, so that everything successfully flushed so far and any subset of the later sector writes has reached the disk, opening what is left either fails cleanly or gives the complete dataset; a reader that opens the file while it is being written sees the same two outcomes. After encoding has returned success a crash loses nothing.",
  ["crash_points", "schedules", "inputs", "configurations"],
  "every crash instant x every surviving subset of unflushed sector writes x every poll instant of a concurrent reader",
  "Tests only look at files after encoding finished; no test crashes, tears or reorders writes.",
  [ENC, ENC2, DEC2, "ebi/src/format"], [("footer written before its offset is published in the header", ENC), ("header and footer validation on open", DEC2)],
  ["result of opening and reading the surviving bytes"], state=[{"name": "footer offset", "meaning": "zero until the file is complete", "where": "header"}])
p("C05", "A file that lost its tail is reported, never misread",
  "When a file has lost any suffix, opening it returns an error; when the suffix disappears while the file is already open, every later query that needs a missing byte returns an error and every other query still gives the right answer. No truncation point makes the library panic, hang or return records that were never encoded.",
  ["crash_points", "fault_sequences", "histories", "inputs", "configurations"],
  "every truncation length x every instant of truncation in a query history x scheme x chunking",
  "No test ever decodes a truncated file.",
  [DEC2, DEC, CR], [("exact-length reads of header, footer and chunks", DEC2)], ["result of open and of each query"])
p("C06", "Every query history on an open file agrees with an in-memory array",
  "In any sequence of materialize, filter, filter-and-materialize, sum, min and max queries on one open file, with any predicate, any selection bitmap and any single-chunk restriction, each answer equals the answer computed from a plain array of the stored records (sums up to rounding; for BUFF with predicates on the configured decimal grid), independent of the queries before it and of how the stream fragments or interrupts I/O. A precision set for BUFF makes materialized values right to that many decimals, and exact from the configured decimals on. A query that selects nothing gives an empty result, 0, +infinity or -infinity respectively.",
  ["histories", "inputs", "configurations", "schedules"],
  "every sequence of queries x scheme x data x predicate x bitmap x chunk id x benign I/O schedule",
  "Query tests run one query on a fresh decoder; sequences, sparse bitmaps crossing chunks, constant chunks, out-of-range predicates and I/O fragmentation are not reached.",
  [DEC, CR, "ebi/src/decoder/query.rs"], [("in-situ query execution per scheme", CR), ("bitmap/chunk intersection", DEC)], ["query results"])
p("C07", "Read failures surface as errors and leave the reader usable",
  "A read or seek that fails while a file is opened or queried makes that call return an error; it never panics, hangs or returns a wrong answer. Once the fault clears, the same open decoder answers every query correctly again on the first attempt.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "every I/O call of every query in a history x failure kind (EIO, unexpected EOF, would-block, failing seek, EINTR storms, short reads)",
  "No test injects read failures.",
  [DEC, DEC2, CR, "ebi/src/decoder/error.rs"], [("error propagation", CR), ("reposition before every chunk access", DEC)], ["query results", "panics"])
p("C08", "Materialized output is exact, or the call fails with a clean prefix",
  "The bytes a materializing query hands to its sink are exactly the selected records in order, for any sink that accepts them in pieces or is interrupted. If the sink fails for good the call returns an error, what the sink accepted is a prefix of the right output, and the decoder still answers later queries correctly.",
  ["fault_sequences", "schedules", "inputs", "histories"],
  "every sink schedule and failure point x query x scheme x buffered or direct sink",
  "Tests only write to vectors, which accept everything.",
  [DEC, "ebi/src/decoder/query.rs", CR], [("whole-record writes to the sink", "ebi/src/decoder/query.rs")], ["bytes accepted by the sink", "result of the call"])
p("C09", "A query depends only on the chunks it selects",
  "A query restricted by chunk id or by a bitmap succeeds with the right answer even if every chunk without a selected record is unreadable or destroyed, and never reads those chunks. A query that does need an unreadable chunk returns an error.",
  ["fault_sequences", "inputs", "configurations"],
  "every set of damaged chunks x chunk id x bitmap x query x scheme",
  "Tests never damage a file nor observe which bytes a query reads.",
  [DEC, DEC2, CR], [("skipping of chunks without selected records", DEC), ("chunk-bounded reads", CR)], ["byte ranges read", "query results"])
p("C10", "Nearest-neighbour search equals brute force for every chunking",
  "Nearest-neighbour search returns the index and squared distance that a brute-force scan over the stored vectors finds, for every vector length and every position of the chunk boundaries, including vectors that straddle chunks, a trailing incomplete vector (ignored) and ties (any nearest index is acceptable); an empty target is refused. At a reduced precision of BUFF the answer is one that precision allows. It is unaffected by earlier queries, I/O fragmentation and transient read errors that were retried.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every dataset x vector length x chunk boundary placement x scheme x I/O schedule",
  "The tests use vectors that fit the chunking they pick and one data shape.",
  [DEC, CR], [("carry-over of a partial distance between chunks", DEC)], ["index and distance returned"])
p("C11", "Batched matrix multiplication equals the reference product or is refused",
  "Matrix multiplication over a stored batch of matrices returns the row-major products of a reference implementation, for every scheme, batch and chunk boundary placement, including matrices that straddle chunks, under any benign I/O schedule. Shapes that do not fit the data or each other are refused with an error.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every shape x batch x chunk boundary placement x scheme x I/O schedule",
  "Tests use chunk sizes that are multiples of the matrix size.",
  [DEC, CR], [("walk over chunks with an offset", DEC)], ["returned matrices"])
p("C12", "Multi-column aggregates equal the array computation, or fail cleanly",
  "An aggregate (sum, min, max or the raw values) of an arithmetic expression over several equally chunked columns, with or without a selection bitmap, equals the aggregate of the element-wise expression (of columns and literals, with at least one column in every operation) over plain arrays, whatever schemes the columns use and whether aggregates are computed one by one or together. A read failure in any one column makes the call return an error, and the columns answer correctly once the fault clears.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every expression x set of columns and schemes x bitmap x I/O schedule and failure point in any column",
  "Tests use a few fixed expressions on healthy in-memory columns.",
  [DEC, "ebi/src/decoder/expr.rs"], [("chunk-wise evaluation over all columns", "ebi/src/decoder/expr.rs")], ["aggregation results"])
p("C13", "Operations on one chunk give the same answer in any order",
  "On an open chunk, any sequence of decompression, materialization, filtering, aggregation, distance and dot-product operations gives, for each operation, the answer it gives on a freshly opened chunk and the one an array computation gives. Which operations ran before, and which of them failed because their output sink failed, never changes an answer.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every sequence of chunk operations x scheme x data x sink fault",
  "Tests run one operation per chunk reader; cached and uncached paths are never mixed.",
  [CR, "ebi/src/decoder/query.rs"], [("cached decompression result versus in-situ scan with a shared cursor", CR)], ["operation results"])
p("C14", "File metadata always describes the file",
  "After any successful encoding, the metadata read back from the file states the scheme and its parameters, the chunk option with its full 64-bit value and the format version used, and the exact numbers of records and chunks; the chunk table is contiguous, in order and covers exactly the data area and the record range; the reported sizes add up to the real file size. This holds under every I/O schedule, including an empty input.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every scheme x parameter x chunk option x input length x I/O schedule",
  "Tests check a few fields for one configuration.",
  [ENC2, DEC, DEC2, "ebi/src/format", CO + ".rs"], [("chunk footers accumulated while writing", ENC2), ("footer parsing", DEC2)], ["metadata accessors", "file length"])
p("C15", "Recorded times account for simulated time exactly",
  "The elapsed time stored in a file covers at least the clock time from creating the encoder until its last record was written and at most until encoding returned. The per-segment times stored in a file and reported after a materialize, filter, sum, min or max query count read stalls as I/O-read and write stalls as I/O-write, never exceed the clock time that passed, and describe only the latest query: their other segments are the sum of what the codec reports for each chunk, or what the same query takes first on a newly opened file. Clock readings never influence records or answers.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every placement of delays on I/O calls and every clock rate x query history",
  "Tests use the real clock, so nothing about the recorded durations can be asserted.",
  ["ebi/src/time.rs", ENC, ENC2, DEC, CR], [("segment timers around I/O and computation", "ebi/src/time.rs")], ["elapsed and segmented times"], hook="simulated clock (--cfg ebi_sim)")
p("C16", "A reused codec behaves like a fresh one",
  "A codec instance that was used, reset, rewound or appended to in any order, or abandoned after a failed write, produces for the next chunk exactly the bytes and byte counts a fresh instance produces for the same records, including when several instances are used alternately. The number of bytes it announces for an unfinished chunk is the number it hands out once finished. Appending in pieces equals compressing at once, rewinding n records equals never having added them, and a refused rewind changes nothing, for the schemes that offer it.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history of compress, append, rewind, reset, prepare and failed writes x scheme x data",
  "Tests reset a codec once, after one call.",
  [CO, ENC2], [("reset between chunks", ENC2), ("state restored by reset", CO)], ["buffers and counters of the codec", "file bytes"])
p("C17", "Interleaved encoders and decoders do not affect each other",
  "When any number of encoders and decoders on separate streams run concurrently, on one thread or several, every one of them produces the bytes, answers, errors and times it produces when it runs alone with the same I/O behaviour. A fault or panic-free failure in one session never changes another.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every interleaving, at I/O-call granularity, of several sessions on several threads x faults in any of them",
  "Tests run one session at a time per thread and control no interleaving.",
  [ENC, DEC, CR, CO], [("no state shared between instances", "ebi/src")], ["per-session results under interleaving versus alone"])
p("C18", "Failed operations give back everything they took",
  "After a failed open, query, aggregate or encode, all memory acquired for the failed call is released: repeating a failing call any number of times does not grow memory, and no failure corrupts memory used later. Closing every object returns memory use to its starting point whether or not faults occurred.",
  ["fault_sequences", "histories", "configurations"],
  "every failing I/O call in every operation, repeated",
  "Tests inject no failures and measure no memory.",
  ["ebi/src/decoder/expr.rs", DEC, CR], [("ownership of buffers across early returns", "ebi/src/decoder/expr.rs")], ["bytes still allocated after the call"])
p("C19", "The CSV converter writes every value or fails",
  "The CSV-to-binary converter's output file holds exactly the numeric fields of its input in reading order as 8-byte little-endian records; if any read, parse or write of one file fails it reports that file, leaves no partial output for it and still converts the other files. This holds under any fragmentation or interruption of file I/O, for any file name, and over outputs of earlier runs.",
  ["inputs", "fault_sequences", "schedules"],
  "every CSV input x every I/O call x failure kind",
  "The tool has no tests.",
  ["tools/src/csv2bin.rs"], [("buffered writer flushed before success is reported", "tools/src/csv2bin.rs")], ["exit result", "output file"])
json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
NA = []
p("C20", "Reading a file stage by stage sees the same file",
  "A caller who reads header, footer and chunks by hand (FileReader, metadata, chunk handles, chunk readers), in any order the stages permit, repeated, cloned or retried after failed reads and seeks, gets the stored file: stages without their predecessor are refused, a failed stage returns an error and leaves the reader as it was, and a repeated one does not touch the stream. The chunk handles, however obtained, enumerate every chunk once, in order, with byte and record ranges that tile the data area and the dataset, and seeking with a handle leads exactly to the start or end of its chunk. Operations on a chunk reader made from a handle agree with an array of that chunk's records, whether or not the stream given to it ends with the chunk.",
  ["histories", "fault_sequences", "inputs", "configurations", "schedules"],
  "every order and repetition of stages x failing reads and seeks x order of chunk visits x operations x scheme x chunking",
  "The low-level tests fetch header, footer and chunks once, front to back, from an in-memory cursor that never fails.",
  [DEC2, CR, "ebi/src/format"], [("header and footer fetched once and cached", DEC2), ("chunk handles derived from the chunk table", DEC2)],
  ["results of the stages", "chunk handle accessors", "stream position", "operation results"])
EX = "experimenter/src/main.rs"
p("C21", "The experimenter's commands record right results or report failure",
  "For each matching input file, experimenter's compress, filter, filter-materialize, materialize, max and sum commands, on disk or in memory, either leave a complete and right result (an .ebi file, materialized files, and a result JSON under the next free number holding the right answer, sizes, configuration and input) or report that file as failed; create-filter-config and create-default-compressor-config write right configurations or report failure. Inputs and earlier results never change, a failure concerns only the file it hit, and after a kill at any point an .ebi file is complete or refuses to open and the same command succeeds when repeated.",
  ["fault_sequences", "crash_points", "histories", "inputs", "configurations"],
  "every sequence of commands x failing or killed open, mkdir, read, write, seek or stat x codec and chunking x records",
  "The program has no tests of its commands, and none of its file calls ever fails in use.",
  [EX, "experimenter/src/lib.rs", ENC, DEC], [("result written to the next free number and flushed", EX), ("per-file errors are reported and do not stop the others", EX)],
  ["exit status and stderr", "output files", "result JSON"])
p("C22", "A whole experiment ends with every result or fails",
  "When experimenter's all command succeeds, its result file holds, for every data set, compressor configuration and filter, exactly the requested number of results of each operation, each of them right; all-patch does the same for the data sets and compressors it is asked to redo, replacing their former results, and carries every other result over unchanged. With --create-config it makes the configurations itself; a data set it cannot make them for is reported and left out. Any other failing file operation makes the command fail rather than yield a wrong or incomplete result; inputs, given configurations and earlier results never change, and after a failure or a kill at any point the command succeeds when repeated.",
  ["fault_sequences", "crash_points", "histories", "inputs", "configurations"],
  "every set of data sets, compressors, filters and patches x failing or killed file call",
  "The commands have no tests.",
  [EX, "experimenter/src/lib.rs", ENC, DEC], [("results of a redone compressor are cleared first", "experimenter/src/lib.rs"), ("every command's error ends the experiment", EX)],
  ["exit status", "result JSON", "files in the data directories"])
CS = "tools/src/collect-stats.rs"
p("C23", "The statistics of a collection are right, or their lack is reported",
  "When collect-stats succeeds, stats.json holds for each matching table of finite numbers its right statistics (number, extremes, mean and deviation of values, decimals and exponents, zeros in the XOR of neighbours, share of repeated values), and each table without an entry was reported on stderr: one that is not numeric, or one whose reading failed. A failure while writing makes the command fail; a failure concerns only the file it hit, an earlier stats.json is replaced completely, tables never change, and after a failure or a kill at any point the command succeeds when repeated.",
  ["fault_sequences", "crash_points", "inputs"],
  "every set of tables x failing or killed open, listing, read or write x fragmentation",
  "The program has no tests.",
  [CS], [("a table with an error is reported and left out", CS)],
  ["exit status and stderr", "stats.json"])
TP = "experimenter/src/tpch.rs"
p("C24", "The benchmark commands save right answers for every scheme or fail",
  "When experimenter's tpch, ucr2018 or embedding command succeeds, it has saved, in a directory under the next free number, for every scheme the right answers: tpch the aggregates of both TPC-H queries over the parquet tables, five times over, in the order of the query; ucr2018 the accuracy of nearest-neighbour classification of each test set (rows after the first, values rounded to the decimals of the training set, missing ones 0) at full and at each reduced precision; embedding ten compressions and decompressions of each file, without the quantising schemes where its precision, rounded to whole decimals, exceeds 12; all with right configurations and sizes. Any failing file operation makes the command fail rather than leave out or falsify a result; inputs and earlier results never change, and after a failure or a kill at any point the command succeeds when repeated.",
  ["fault_sequences", "crash_points", "inputs"],
  "every data set of the benchmarks x failing or killed file call x fragmentation",
  "The commands have no tests and need data sets that are not in the repository.",
  [EX, TP, "experimenter/src/lib.rs", ENC, DEC], [("results go to a directory of their own, never over earlier ones", EX), ("a file that cannot be read or listed ends the benchmark", EX)],
  ["exit status", "result JSON", "files in the data directories"])

with open(json_path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
