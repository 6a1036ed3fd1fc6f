use crate::case::*;
use crate::rng::Rng;

pub mod chunk;
pub mod codec;
pub mod csv;
pub mod encode;
pub mod exper;
pub mod inter;
pub mod mem;
pub mod multi;
pub mod proc;
pub mod query;
pub mod staged;
pub mod stats;
pub mod bench;
pub mod timing;
pub mod vecs;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64) -> Case,
    pub run: fn(&Case, &mut Stats) -> Res,
    /// simulated runs of the quick tier
    pub quick: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
}

pub const STUBS: &[&str] = &[
    "byte streams (files, pipes): in-memory streams answering every read/write/seek/flush from the case's script",
    "clock: ebi::time::sim_clock behind --cfg ebi_sim",
    "programs (C19, C21-C24): libc's file calls, clock, getrandom, sync and process creation, answered by the preloaded sim/csvshim.c over a scratch directory",
    "ALP: compiled out; in the experimenter its configuration is replaced by Uncompressed's (--cfg ebi_sim)",
];
pub const ASSUMPTIONS: &[&str] = &[
    "flush on the output stream is a durability barrier; writes inside one 512-byte sector issued by one call are atomic",
    "quantising schemes (BUFF, DeltaSprintz): records and predicates lie on the configured decimal grid, |x| <= 1e6 for records",
    "programs (C19, C21-C24): the shim sees every file call the program makes through libc; configurations hold numbers that survive JSON",
    "XOR schemes: no NaN among the records (their bit stream uses NaN as end marker)",
];
const CODECS: &str = "all 12 codecs and chunk readers built without ALP (Uncompressed, RLE, Gorilla, BUFF, Chimp, Chimp128, ElfOnChimp, Elf, DeltaSprintz, Zstd, Gzip, Snappy)";
const ENC: &str = "ebi::api::encoder::Encoder, ebi::encoder::{FileWriter, ChunkWriter}";
const DEC: &str = "ebi::api::decoder::Decoder, ebi::decoder::{FileReader, GeneralChunkHandle, GeneralChunkReader}";

pub static ALL: &[Prop] = &[
    Prop {
        id: "C01",
        gen: encode::gen_c01,
        run: encode::run_c01,
        quick: 240_000,
        level: "exploration",
        rule: "one run = one generated file (scheme, parameters, chunking, records) encoded and decoded by the real code over simulated streams whose every call is fragmented, interrupted or delayed as the seed decides, compared record by record; non-trivial when at least one such decision took effect",
        real: &[ENC, DEC, CODECS],
    },
    Prop {
        id: "C02",
        gen: encode::gen_c02,
        run: encode::run_c02,
        quick: 160_000,
        level: "exploration",
        rule: "one run = the same records encoded by plain streams, by simulated streams with seeded fragmentation/EINTR/delays and clock, and chunk by chunk with fresh codec instances; the files are compared byte for byte outside the timing fields, and chunk boundaries against the chunk option; non-trivial when at least one I/O decision took effect",
        real: &[ENC, CODECS],
    },
    Prop {
        id: "C03",
        gen: encode::gen_c03,
        run: encode::run_c03,
        quick: 240_000,
        level: "fault_enumeration",
        rule: "one run = one encoding with a seeded failure (EIO, ENOSPC, EPIPE, EAGAIN, timeout, unexpected EOF, zero-length write, full disk, a failing flush that loses what was buffered), permanent or transient, at a seeded I/O call of the input or output stream; success is accepted only with a complete, flushed, decodable file; non-trivial when the failure was delivered",
        real: &[ENC, DEC, CODECS],
    },
    Prop {
        id: "C04",
        gen: encode::gen_c04,
        run: encode::run_c04,
        quick: 64_000,
        level: "fault_enumeration",
        rule: "one run = one encoding whose writes and flushes are recorded, some of them cut off by an output failure, then up to 24 seeded crash states (crash point, subset of unflushed sector writes kept, file length kept or not), every write prefix near the end and moving-reader snapshots, each opened and fully decoded by the real decoder; non-trivial when at least one crash state differs from the complete file",
        real: &[ENC, DEC, CODECS],
    },
    Prop {
        id: "C05",
        gen: query::gen_c05,
        run: query::run_c05,
        quick: 160_000,
        level: "fault_enumeration",
        rule: "one run = one file opened at up to six seeded truncation lengths, and a query history on an open file whose tail disappears at a seeded moment; every truncated open must fail, every query must be right or, if it needs a lost chunk, fail; every run truncates and is non-trivial",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C06",
        gen: query::gen_c06,
        run: query::run_c06,
        quick: 240_000,
        level: "exploration",
        rule: "one run = one file and a history of up to 12 seeded queries (predicates, bitmaps and chunk ids aimed at stored values and chunk boundaries) on one open decoder over a seeded benign I/O schedule, each answer compared with an array model; non-trivial when the history has several queries or an I/O decision took effect",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C07",
        gen: query::gen_c07,
        run: query::run_c07,
        quick: 240_000,
        level: "fault_enumeration",
        rule: "one run = a query history in which up to four seeded read/seek failures (EIO, unexpected EOF, would-block, timeout, broken pipe; transient or until cleared) hit seeded I/O calls of the open or of a query; a failed call is repeated after the fault cleared, at once or after other calls, and must then be right; non-trivial when a failure was delivered",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C08",
        gen: query::gen_c08,
        run: query::run_c08,
        quick: 200_000,
        level: "fault_enumeration",
        rule: "one run = materializing queries into a simulated sink with seeded fragmentation, EINTR, failures and capacity; non-trivial when an I/O decision or failure took effect",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C09",
        gen: query::gen_c09,
        run: query::run_c09,
        quick: 200_000,
        level: "fault_enumeration",
        rule: "one run = queries on a file whose unselected chunks are unreadable or overwritten (or with any chunks unreadable), with every byte range read recorded; non-trivial when at least one chunk is damaged",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C10",
        gen: vecs::gen_c10,
        run: vecs::run_vecs,
        quick: 320_000,
        level: "exploration",
        rule: "one run = one file with chunk boundaries aimed inside, at and across vectors, and up to five searches (mixed with other queries and vector lengths) on one decoder over a seeded I/O schedule, a quarter of them with seeded read failures that are retried, compared with brute force; non-trivial when the file has several chunks or an I/O decision took effect",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C11",
        gen: vecs::gen_c11,
        run: vecs::run_vecs,
        quick: 320_000,
        level: "exploration",
        rule: "one run = one batch of matrices with chunk boundaries aimed inside, at and across matrices and rows, and up to four products (fitting and unfitting shapes, mixed with other queries) on one decoder over a seeded I/O schedule, a quarter of them with seeded read failures that are retried, compared with a reference product; non-trivial when the file has several chunks or an I/O decision took effect",
        real: &[DEC, CODECS, ENC],
    },
    Prop {
        id: "C12",
        gen: multi::gen_c12,
        run: multi::run_c12,
        quick: 240_000,
        level: "exploration",
        rule: "one run = up to four equally chunked columns of seeded schemes and a history of aggregates (random expressions and bitmaps, one by one or together, mixed with single-column queries) over per-column I/O schedules, half of them with seeded read failures in any column that are retried at once or later, compared with an array model; non-trivial when several columns and chunks are involved or an I/O decision took effect",
        real: &[DEC, "ebi::decoder::expr, ebi::api::decoder::Aggregation", CODECS, ENC],
    },
    Prop {
        id: "C13",
        gen: chunk::gen_c13,
        run: chunk::run_c13,
        quick: 240_000,
        level: "exploration",
        rule: "one run = a history of up to ten operations (whole and partial decompression, materialize, filter, aggregates, distance, dot product, precision changes, cached results taken and dropped) on two open chunks over a seeded I/O schedule, half of them with seeded sink failures, each answer compared with an array model; non-trivial when the history has several operations",
        real: &["ebi::decoder::chunk_reader (all readers), ebi::decoder::query", DEC, ENC],
    },
    Prop {
        id: "C14",
        gen: encode::gen_c14,
        run: encode::run_c14,
        quick: 160_000,
        level: "exploration",
        rule: "one run = one generated file (empty input and chunk options over their whole range included) encoded over simulated streams (or a real scratch file that already had other content) and its metadata read back over simulated streams and compared with the configuration, the record count, the real file size and the chunk partition; non-trivial when at least one I/O decision took effect",
        real: &[ENC, DEC, CODECS],
    },
    Prop {
        id: "C15",
        gen: timing::gen_c15,
        run: timing::run_c15,
        quick: 240_000,
        level: "exploration",
        rule: "one run = one encoding and up to five queries on a simulated clock that only moves with the delays the seed puts on I/O calls (up to an hour each) and, in half of the runs, by a seeded tick at every clock reading; stored and reported times are compared with the delays delivered, a quarter of the histories after failed attempts; non-trivial when at least one I/O decision took effect",
        real: &[ENC, DEC, CODECS, "ebi::time (its Instant replaced by the simulated clock)"],
    },
    Prop {
        id: "C16",
        gen: codec::gen_c16,
        run: codec::run_c16,
        quick: 320_000,
        level: "exploration",
        rule: "one run = up to three codec instances used alternately for up to 15 seeded operations (compress, append, rewind, reset, prepare, a chunk written through the file writer into a sink that fails), every instance compared after every operation with a fresh one given the records it should hold; non-trivial when the history has several operations",
        real: &["ebi::compressor (all codecs built without ALP)", "ebi::encoder::{FileWriter, ChunkWriter}"],
    },
    Prop {
        id: "C17",
        gen: inter::gen_c17,
        run: inter::run_c17,
        quick: 96_000,
        level: "exploration",
        rule: "one run = two to four encoder and decoder sessions (half of them of one scheme, a quarter on one file, half with seeded failures), run alone, nested inside each other's I/O calls on one thread, and on separate threads under a baton that a seeded scheduler passes at every I/O call; every session's bytes, answers, errors and times must be the same each time and right by the array model; non-trivial with at least two sessions",
        real: &[ENC, DEC, CODECS],
    },
    Prop {
        id: "C18",
        gen: mem::gen_c18,
        run: mem::run_c18,
        quick: 96_000,
        level: "fault_enumeration",
        rule: "one run = two complete lives (opens, encodings, queries, chunk iterations, aggregates over up to four columns) in which seeded failures hit seeded I/O calls of any stream; every failing call is repeated four to seven times under a counting allocator with canaries and junk-filled memory, live bytes and blocks must not move between repetitions nor between the two lives, and the healed calls must be right; non-trivial when a call failed",
        real: &[ENC, DEC, CODECS, "ebi::decoder::expr"],
    },
    Prop {
        id: "C19",
        gen: csv::gen_c19,
        run: csv::run_c19,
        quick: 16_000,
        level: "fault_enumeration",
        rule: "one run = the real csv2bin process on up to three seeded CSV files in a scratch directory (half of them over older outputs), once with seeded fragmentation and interruption of every read and write and once more with up to two seeded failures (EIO, ENOSPC, EAGAIN, ETIMEDOUT, EACCES, EMFILE, zero-length write; once or for good) at seeded read, write, open or mkdir calls, all answered by a preloaded shim; outputs and reports are compared with an own parse of the text; non-trivial when at least one decision took effect",
        real: &["tools/src/csv2bin.rs, whole process"],
    },
    Prop {
        id: "C20",
        gen: staged::gen_c20,
        run: staged::run_c20,
        quick: 240_000,
        level: "fault_enumeration",
        rule: "one run = one file read by hand: a seeded order of header, footer, seek and clone steps, and of headers of unfinished or foreign files and cut footers that must be refused, on one FileReader with up to four seeded read/seek failures (transient, or outages that end later) and retries, then every handle of the chunk table checked and up to six chunks visited in a seeded order with a history of operations each, on bounded or unbounded streams; non-trivial when the steps were reordered or repeated or a failure was delivered",
        real: &[DEC, "ebi::decoder::{FileReader, Metadata, MetadataRef, GeneralChunkHandle, GeneralChunkReader}", CODECS, ENC],
    },
    Prop {
        id: "C21",
        gen: exper::gen_c21,
        run: exper::run_c21,
        quick: 8_000,
        level: "fault_enumeration",
        rule: "one run = up to five commands (compress, filter, filter-materialize, materialize, max, sum, create-filter-config, create-default-compressor-config; on disk or in memory) of the real experimenter program on up to three seeded data files in a scratch directory, every open, mkdir, read, write, seek and look at a result of which is fragmented, interrupted, failed (EIO, ENOSPC, EACCES, EMFILE, would-block, timeout, zero-length write) or used to kill the process as the seed decides; what each process leaves is compared with the array model and with what it reported, and a command that lost files is repeated without faults; non-trivial when an I/O decision, failure or kill took effect",
        real: &["experimenter/src/{main.rs, lib.rs}, whole process", ENC, DEC, CODECS],
    },
    Prop {
        id: "C22",
        gen: exper::gen_c22,
        run: exper::run_c22,
        quick: 4_000,
        level: "fault_enumeration",
        rule: "one run = the experimenter's `all` command, and in half of the runs a following `all-patch`, as real processes on up to two data sets, three compressor configurations and two filters (or all that --create-config makes) in a scratch directory, every file call fragmented, interrupted, failed or used to kill the process as the seed decides; after success every number of the result file is compared with the array model, after a failure or kill the inputs, configurations and earlier results are compared and the command is repeated without faults; non-trivial when an I/O decision, failure or kill took effect",
        real: &["experimenter/src/{main.rs, lib.rs}, whole process", ENC, DEC, CODECS],
    },
    Prop {
        id: "C23",
        gen: stats::gen_c23,
        run: stats::run_c23,
        quick: 18_000,
        level: "fault_enumeration",
        rule: "one run = the real collect-stats process on up to three seeded CSV tables in a scratch directory (half of them over an older, longer stats.json), every read and write fragmented or interrupted as the seed decides, with up to two seeded failures or a kill at a seeded open, read, write or directory listing, then repeated without faults; every entry is compared with statistics computed from the text; non-trivial when an I/O decision or failure took effect",
        real: &["tools/src/collect-stats.rs, whole process"],
    },
    Prop {
        id: "C24",
        gen: bench::gen_c24,
        run: bench::run_c24,
        quick: 2_400,
        level: "fault_enumeration",
        rule: "one run = one of the benchmark commands tpch, ucr2018 and embedding of the real experimenter program on seeded data (parquet tables of both queries; up to three labelled vector sets; up to three record files) in a scratch directory, every file call fragmented, interrupted, failed or used to kill the process as the seed decides; after success every saved answer and size of every scheme is compared with the array computation, after a failure or kill inputs and earlier results are compared and the command is repeated without faults; non-trivial when an I/O decision, failure or kill took effect",
        real: &["experimenter/src/{main.rs, lib.rs, tpch.rs}, whole process", ENC, DEC, CODECS],
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
