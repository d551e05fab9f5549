pub mod faults;
pub mod files;
pub mod framing;
pub mod large;
pub mod mem;
pub mod merge;
pub mod read;

use crate::ctx::*;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R<()>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// what makes a run non-trivial
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: large::c01,
        quick_runs: 100_000,
        thorough_runs: 2_000_000,
        rule: "one run = one configuration, key/value population, write schedule and read schedule; non-trivial: the file has at least two data blocks (three blocks with the root); distinct by the hash of the run's event log (every component call with position, length and effect, every public call)",
        level: "exploration",
        assumptions: &[],
    },
    Prop {
        id: "C02",
        run: read::c02,
        quick_runs: 40_000,
        thorough_runs: 900_000,
        rule: "one run = one file and up to 60 probes over up to 3 cursors sharing or not one file position, each fresh or reset after a disturbance; non-trivial: at least two data blocks",
        level: "exploration",
        assumptions: &[],
    },
    Prop {
        id: "C03",
        run: read::c03,
        quick_runs: 120_000,
        thorough_runs: 2_500_000,
        rule: "one run = one file and one history of cursor operations over a population of cursors and clones; non-trivial: at least two data blocks and three operations",
        level: "exploration",
        assumptions: &["after an operation returned None or failed, relative moves are not compared until an absolute move returned an entry"],
    },
    Prop {
        id: "C04",
        run: read::c04,
        quick_runs: 110_000,
        thorough_runs: 2_200_000,
        rule: "one run = one file and a population of forward and reverse range iterators stepped in a seeded interleaving; non-trivial: at least two entries",
        level: "exploration",
        assumptions: &["an iterator that returned an error is not compared any more"],
    },
    Prop {
        id: "C05",
        run: read::c05,
        quick_runs: 110_000,
        thorough_runs: 2_200_000,
        rule: "one run = one file and a population of forward and reverse prefix iterators stepped in a seeded interleaving; non-trivial: at least two entries",
        level: "exploration",
        assumptions: &["an iterator that returned an error is not compared any more"],
    },
    Prop {
        id: "C06",
        run: large::c06,
        quick_runs: 130_000,
        thorough_runs: 2_600_000,
        rule: "one run = one set of sources (count, overlap pattern, a configuration each, handles sharing a file position or not, the same file several times), a merge function, an output mode and a read/write schedule; non-trivial: at least two sources and a key held by several; distinct by the hash of the run's event log",
        level: "exploration",
        assumptions: &["lone values: only the output is compared, the statement does not say whether the merge function is called for them"],
    },
    Prop {
        id: "C07",
        run: merge::c07,
        quick_runs: 100_000,
        thorough_runs: 2_000_000,
        rule: "one run = one sorter configuration (budgets through the hook), one insert sequence, one output mode, one schedule of the parallel sort and of the chunk I/O; non-trivial: duplicate keys and at least two chunks written; distinct by the hash of the run's event log and of the sort's schedule",
        level: "exploration",
        assumptions: &["the parallel sort runs rayon's algorithms on a stand-in rayon-core: joined jobs are executed in a seeded order on one thread, never truly in parallel"],
    },
    Prop {
        id: "C08",
        run: merge::c08,
        quick_runs: 26_000,
        thorough_runs: 550_000,
        rule: "one run = one sorter configuration (most with hook-reduced budgets, some with the shipped constants), up to 25 budgets of data (60 thorough); the bounds are evaluated after every insert; non-trivial: at least two chunks created; distinct by the hash of the run's event log",
        level: "exploration",
        assumptions: &["the volume counts key and value bytes of the successful inserts since the last insert that created a chunk", "a configured maximum of 0 chunks is read as 1, as the builder documents by its minimum"],
    },
    Prop {
        id: "C09",
        run: large::c09,
        quick_runs: 100_000,
        thorough_runs: 2_000_000,
        rule: "one run = one file: configuration, content, writer (current, grenad 0.4.7, or a sorter whose chunk files are kept) and I/O schedule; non-trivial: at least two data blocks (two chunk files); distinct by the hash of the run's event log and of the bytes written",
        level: "exploration",
        assumptions: &["grenad 0.4.7 and its codec crates, as cached, are the frozen reader and writer; 255 index levels are not given to it (its level counter wraps)"],
    },
    Prop {
        id: "C10",
        run: files::c10,
        quick_runs: 100_000,
        thorough_runs: 2_000_000,
        rule: "one run = one content and layout encoded as version 1 and as version 2 by the independent encoder, one query history and one population of iterators played on both; non-trivial: at least two data blocks",
        level: "exploration",
        assumptions: &["version 1 files are produced by the independent encoder, no version 1 writer exists"],
    },
    Prop {
        id: "C11",
        run: faults::c11,
        quick_runs: 110_000,
        thorough_runs: 2_200_000,
        rule: "one run = one scenario (writer, cursor history, iterators, merger or sorter) played without disturbance, once more, and under one to three seeded schedules of short, one-byte and interrupted calls; every result and every byte received by sinks and chunk files is compared; non-trivial: a schedule really split or interrupted a call; distinct by the hash of the run's event log",
        level: "exploration",
        assumptions: &["interruptions come at most three in a row, as std's loops retry them for ever"],
    },
    Prop {
        id: "C12",
        run: faults::c12,
        quick_runs: 40_000,
        thorough_runs: 500_000,
        rule: "one run = one scenario played without failures and then once per fault point: the k-th call to read/write/flush/seek/create/merge fails, every k when the scenario makes few enough calls (probe every_fault_point), sampled otherwise; non-trivial: at least one failure was reported; distinct by the hash of the run's event log",
        level: "fault_enumeration",
        assumptions: &["drops report nothing and are not judged", "a write that is accepted and then lost is reported by the storage at the next flush, seek or read of that file"],
    },
    Prop {
        id: "C13",
        run: files::c13,
        quick_runs: 300_000,
        thorough_runs: 6_000_000,
        rule: "one run = one kind of crash image (truncations, torn overwrite, lost write, corrupted trailer bytes, arbitrary strings, what a failed writer left), many images each; every image opened is compared with the independent trailer classifier; distinct by the hash of the run's event log",
        level: "exploration",
        assumptions: &["the device itself returns no error while the file is opened"],
    },
    Prop {
        id: "C14",
        run: framing::c14,
        quick_runs: 20_000,
        thorough_runs: 400_000,
        rule: "one run = one to six entries with drawn key and value lengths, one trip (writer and reader; files of the independent encoder or of grenad 0.4.7; sorter; merger), one I/O schedule; a few runs carry one key or value of 2^28 to 2^32-1 bytes; non-trivial: a length over 127; distinct by the hash of the run's event log",
        level: "exploration",
        assumptions: &["lengths over 2^21 + 70000 only in the fixed list of giant runs (six in quick, sixteen in thorough), skipped when less memory is available than they need"],
    },
    Prop {
        id: "C15",
        run: files::c15,
        quick_runs: 120_000,
        thorough_runs: 2_400_000,
        rule: "one run = one file (or the files of one sorter); every data block and every index block two or more levels below the root is measured; non-trivial: at least two data blocks",
        level: "exploration",
        assumptions: &["the last block of each level may be smaller than the block size"],
    },
    Prop {
        id: "C16",
        run: files::c16,
        quick_runs: 70_000,
        thorough_runs: 1_500_000,
        rule: "one run = one file and one history of cursor operations over up to three cursors with read schedules and transient failures, the reads of every public call are counted; non-trivial: the file has more than twice as many blocks as one operation may load",
        level: "exploration",
        assumptions: &["a block load is a read that starts at the stored length of a block; reads elsewhere are bounded by their bytes only", "iterators are not bounded"],
    },
    Prop {
        id: "C17",
        run: large::c17,
        quick_runs: 9_000,
        thorough_runs: 200_000,
        rule: "one run = one scenario played on the plain allocator and twice on the simulated one (other addresses, other fill of fresh and freed memory), or entries held while others work, or a buffer that cannot grow; non-trivial: at least three inserts, or any reader scenario; distinct by the hash of the run's event log",
        level: "exploration",
        assumptions: &["memory allocated by the C library of zstd is not simulated", "reads of uninitialised memory show up only when they change a result", "half of the runs use the build with overflow and debug checks, half the optimised build"],
    },
    Prop {
        id: "C18",
        run: files::c18,
        quick_runs: 250_000,
        thorough_runs: 5_000_000,
        rule: "one run = one configuration and one sequence delivered by a faulty producer (duplicates, swaps, redelivered batches, aimed at block ends or anywhere); non-trivial: at least one key not above all earlier ones",
        level: "exploration",
        assumptions: &["after a panic of the writer nothing more is asked of it"],
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
