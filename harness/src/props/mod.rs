//! The properties: for each one a generator of cases, a check of one case, and what it covers.
use crate::data::D;
use crate::eng::{Gen, St};
use crate::imp::*;
use serde::{Deserialize, Serialize};

pub mod cli;
pub mod corpus;
pub mod env;
pub mod huff;
pub mod lzhuf;
pub mod lzw;
pub mod malformed;
pub mod memory;
pub mod refuse;
pub mod seq;
pub mod sizes;
pub mod streams;
pub mod td;

pub type E = Result<(), String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    /// data through a codec
    Data { c: Codec, d: D },
    /// arbitrary bytes offered to a decoder
    Bytes { c: Codec, d: D },
    /// Teledisk: eight header bytes (positions 2..10) and a body
    Td { head: Vec<u8>, d: D },
    /// Teledisk header offered as it is
    TdRaw { expand: bool, d: D },
    /// all environment answers with up to `depth` deviations; first deviations with index = part mod parts
    Env { op: Op, d: D, depth: u32, part: u32, parts: u32, rmax: u32, wmax: u32 },
    /// all failures of the environment, with up to `pre` benign deviations before;
    /// `lim`: reads and writes transfer at most so many bytes (0 = any number)
    Faults { op: Op, d: D, pre: u32, part: u32, parts: u32,
        #[serde(default)]
        lim: u32 },
    /// offsets and prior output: garbage bytes before the input, prefilled output
    Off { op: Op, d: D, prefill: u32 },
    /// offsets too large to be stored, and streams initially positioned somewhere else
    Far { op: Op, d: D, rpos: u64, wpos: u64 },
    /// call b after call a failed, at every stream call of a
    After { a: u32, b: u32 },
    /// one call after every other call of a list, compared with a fresh process
    Probe { op: Op, d: D },
    /// a stream that reports `len` bytes
    Size { op: Op, len: u64, reject: bool },
    /// real data around a small limit
    Limit { op: Op, d: D, reject: bool },
    Cli { expand: bool, method: String, input: Option<D>, prior: Option<D>, answer: String,
        /// way to write the arguments
        #[serde(default)]
        form: u32 },
    /// a sequence of calls
    Seq { calls: Vec<u32> },
    /// a call made inside the I/O of another one, at every point of it
    Nest { outer: u32, inner: u32 },
    /// two calls in two threads, all schedules with at most `bound` preemptions
    Sched { a: u32, b: u32, bound: u32 },
    /// every cut of a stream
    Cuts { c: Codec, d: D },
    /// adaptive Huffman closure
    Close { k: u32, max: u32, cap: u32 },
    /// every string of `tail` bytes behind a prefix
    Sweep { c: Codec, pre: D, tail: u32 },
    /// every truncation and corrupted byte of a valid stream (all: every value, else selected ones)
    Corrupt { c: Codec, d: D, all: bool },
    /// LZW: chain of `pre` codes (each the one just being defined), then all n codes over alpha; split: first chunk
    Codes { o: crate::model_lzw::LwO, pre: u32, alpha: Vec<u16>, n: u32, split: u32 },
    /// token stream of the reference model given to the decoders
    Toks { head: bool, t: Vec<(u16, u16)> },
    /// literals, then tokens, as a stream; header declares `short` bytes less than the tokens stand for
    Tokens { c: Codec, lits: u32, t: Vec<(u16, u16)>, short: u32 },
    /// `dist` literals and `copies` copies of length `len` from distance `dist`: too much data to be stored
    Giant { c: Codec, dist: u16, len: u16, copies: u32 },
    /// a compressed stream followed by every tail of a list
    Tails { c: Codec, d: D, all: bool },
    /// checksum: every byte in the states from..from+256
    CrcStates { from: u32 },
    /// checksum of a buffer from a start value, whole and in two parts
    Crc { seed: u16, d: D },
}

pub struct Info {
    pub rule: &'static str,
    pub states: &'static str,
    pub transitions: &'static str,
    pub traces: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn serial(_prop: &str) -> bool {
    false
}

pub fn gen(prop: &str, g: &mut Gen) {
    match prop {
        "C01" => lzhuf::gen01(g),
        "C02" => lzhuf::gen02(g),
        "C03" => lzw::gen03(g),
        "C04" => td::gen04(g),
        "C05" => lzhuf::gen05(g),
        "C06" => lzw::gen06(g),
        "C07" => huff::gen07(g),
        "C08" => malformed::gen08(g),
        "C09" => malformed::gen09(g),
        "C10" => env::gen10(g),
        "C11" => env::gen11(g),
        "C12" => sizes::gen12(g),
        "C13" => sizes::gen13(g),
        "C14" => cli::gen14(g),
        "C15" => seq::gen15(g),
        "C16" => lzhuf::gen16(g),
        "C17" => env::gen17(g),
        "C18" => streams::gen18(g),
        "C19" => streams::gen19(g),
        "C20" => memory::gen20(g),
        "C21" => refuse::gen21(g),
        "C22" => td::gen22(g),
        _ => panic!("unknown property {prop}"),
    }
}
pub fn check(prop: &str, c: &Case, st: &mut St) -> E {
    match prop {
        "C01" => lzhuf::check01(c, st),
        "C02" => lzhuf::check02(c, st),
        "C03" => lzw::check03(c, st),
        "C04" => td::check04(c, st),
        "C05" => lzhuf::check05(c, st),
        "C06" => lzw::check06(c, st),
        "C07" => huff::check07(c, st),
        "C08" => malformed::check08(c, st),
        "C09" => malformed::check09(c, st),
        "C10" => env::check10(c, st),
        "C11" => env::check11(c, st),
        "C12" => sizes::check12(c, st),
        "C13" => sizes::check13(c, st),
        "C14" => cli::check14(c, st),
        "C15" => seq::check15(c, st),
        "C16" => lzhuf::check16(c, st),
        "C17" => env::check17(c, st),
        "C18" => streams::check18(c, st),
        "C19" => streams::check19(c, st),
        "C20" => memory::check20(c, st),
        "C21" => refuse::check21(c, st),
        "C22" => td::check22(c, st),
        _ => panic!("unknown property {prop}"),
    }
}
pub fn info(prop: &str) -> Info {
    match prop {
        "C01" => lzhuf::INFO01,
        "C02" => lzhuf::INFO02,
        "C03" => lzw::INFO03,
        "C04" => td::INFO04,
        "C05" => lzhuf::INFO05,
        "C06" => lzw::INFO06,
        "C07" => huff::INFO07,
        "C08" => malformed::INFO08,
        "C09" => malformed::INFO09,
        "C10" => env::INFO10,
        "C11" => env::INFO11,
        "C12" => sizes::INFO12,
        "C13" => sizes::INFO13,
        "C14" => cli::INFO14,
        "C15" => seq::INFO15,
        "C16" => lzhuf::INFO16,
        "C17" => env::INFO17,
        "C18" => streams::INFO18,
        "C19" => streams::INFO19,
        "C20" => memory::INFO20,
        "C21" => refuse::INFO21,
        "C22" => td::INFO22,
        _ => panic!("unknown property {prop}"),
    }
}
