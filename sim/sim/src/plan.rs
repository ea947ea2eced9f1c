//! An execution, written out in full: the simulator runs exactly this, and the
//! replay file is this.
use proto::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub body: Body,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
    /// Concurrent clients with their operations; `preempt`: after so many seam
    /// events the given client goes on.
    Hist { clients: Vec<Vec<Op>>, preempt: Vec<(u32, u8)> },
    /// Files that nodes write, hand over and read; crashes in between.
    Store { steps: Vec<Step> },
    /// One document, then damaged copies of it are decoded.
    Damage { enc: Op, raw: Option<Vec<u8>>, decs: Vec<Dec>, variants: Vec<Vec<Dmg>> },
    /// Every operation alone in a process that runs out of memory.
    Oom { ops: Vec<Op> },
    /// Command line tool runs under scripted system calls.
    Cli { runs: Vec<CliRun> },
    /// The same value handed to several builds, then passed on between them.
    Fleet { opts: Opts, v: V, writers: Vec<Writer>, hops: Vec<(Dec, Writer)> },
    /// The same calls over and over again.
    Rounds { ops: Vec<Op>, rounds: u32 },
    /// Ever new calls, derived from a seed: rounds, rough size of a value.
    Fresh { seed: u64, home: u8, rounds: u32, size: u64 },
    /// The same call on data in which a part is repeated more and more often;
    /// the size to begin with.
    Scale { op: Op, pump: Pump, first: u64 },
    /// the document of a known finding
    Witness(crate::known::Known),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub node: u8,
    pub kind: Kind,
    pub faults: Vec<Fault>,
    /// sizes of successive reads or writes (cycled); empty: as asked for
    pub chunks: Vec<u32>,
    /// operations made from inside the n-th event of a kind
    pub nested: Vec<(u32, u64, Op)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Enc { api: EncApi, opts: Opts, v: V },
    Dec { dec: Dec, src: Src },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Dec {
    pub node: u8,
    pub target: Target,
    pub opts: Opts,
    pub reader: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pump {
    /// a piece of the text
    Text { at: u64, len: u64, unit: Unit, numbered: bool },
    /// a part of the value
    Value { site: u64, how: Grow },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Unit {
    Bytes,
    Lines,
    /// a cell of a line and of the lines that follow
    Cell,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Grow {
    /// entries or elements
    Many,
    /// a string
    Long,
    Key,
    /// columns of a table
    Wide,
    Deep,
    DeepList,
    DeepBoth,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Src {
    /// the document node `node` makes of `v`, then damaged
    Doc { node: u8, opts: Opts, v: V, dmg: Vec<Dmg> },
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    /// EV_*
    pub on: u32,
    /// byte offset (write, read), participant (ser), callback (de), count (alloc, flush)
    pub at: u64,
    pub act: Act,
    pub sticky: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Err(u64),
    Intr,
    Zero,
    Panic,
    Stop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dmg {
    Cut(u64),
    DropLine(u64),
    DupLine(u64),
    SwapLines(u64, u64),
    MoveLine(u64, u64),
    /// block size, index
    DropBlock(u64, u64),
    DupBlock(u64, u64),
    SwapBlocks(u64, u64, u64),
    ZeroBlock(u64, u64),
    FlipBit(u64, u8),
    SetByte(u64, u8),
    Insert(u64, Vec<u8>),
    Remove(u64, u64),
    /// repeat a piece many times
    Repeat(u64, u64, u64),
    /// kind, site, detail
    Mangle(crate::mangle::Mangling, u64, u64),
    /// blank lines where they mean nothing; comes first
    Air(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// encode to file, then sync and acknowledge
    Put { file: u8, op: Op },
    /// the writing client dies after so many bytes reached the disk
    TornPut { file: u8, op: Op, at: u64 },
    Get { file: u8, dec: Dec, chunks: Vec<u32>, faults: Vec<Fault> },
    /// read the file on one node, write what was read on another
    Relay { from: u8, to: u8, dec: Dec, node: u8, api: EncApi, opts: Opts },
    /// everything not synced is lost, all nodes restart
    Crash,
}

/// One build's way of writing.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Writer {
    pub node: u8,
    pub api: EncApi,
    pub chunks: Vec<u32>,
    pub faults: Vec<Fault>,
}

/// One scripted run of the tool or of two tools connected by a pipe.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CliRun {
    pub decode: bool,
    pub delim: u8,
    /// of the document that is decoded, or of the second process
    pub delim2: u8,
    pub pretty: bool,
    pub strict_flag: bool,
    pub from_file: bool,
    /// pipe the output into a second process that decodes
    pub pipeline: bool,
    pub input: CliInput,
    pub script: Vec<SysFault>,
    pub script2: Vec<SysFault>,
    pub chunks_in: Vec<u32>,
    pub chunks_out: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CliInput {
    /// the JSON of a value (encode) or the document of it (decode)
    Value(V),
    Raw(Vec<u8>),
    Damaged(V, Vec<Dmg>),
    Missing,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SysFault {
    /// 0 read from input, 1 write to standard output, 2 open of the input file
    pub on: u8,
    /// byte offset at which it happens
    pub at: u64,
    /// errno; 0: return 0; -1: kill -9
    pub errno: i32,
    pub sticky: bool,
}
