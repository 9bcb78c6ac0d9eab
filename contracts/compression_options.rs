use crate::lz77::MatchingType;
use std::convert::From;
//@ use crate::lz77::tokens_for; use crate::rfc::Token; use crate::lz::*;

pub const HIGH_MAX_HASH_CHECKS: u16 = 1768;
pub const HIGH_LAZY_IF_LESS_THAN: u16 = 128;

pub const MAX_HASH_CHECKS: u16 = 32 * 1024;
pub const DEFAULT_MAX_HASH_CHECKS: u16 = 128;
pub const DEFAULT_LAZY_IF_LESS_THAN: u16 = 32;

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub enum Compression {

    Fast,

    Default,

    Best,
}

impl Default for Compression {
    fn default() -> Compression {
        Compression::Default
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub enum SpecialOptions {

    Normal,

    _ForceFixed,

    _ForceStored,
}

impl Default for SpecialOptions {
    fn default() -> SpecialOptions {
        SpecialOptions::Normal
    }
}

pub const DEFAULT_OPTIONS: CompressionOptions = CompressionOptions {
    max_hash_checks: DEFAULT_MAX_HASH_CHECKS,
    lazy_if_less_than: DEFAULT_LAZY_IF_LESS_THAN,
    matching_type: MatchingType::Lazy,
    special: SpecialOptions::Normal,
};

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub struct CompressionOptions {

    pub max_hash_checks: u16,

    pub lazy_if_less_than: u16,

    pub matching_type: MatchingType,

    pub special: SpecialOptions,
}

impl CompressionOptions {

    pub const fn high() -> CompressionOptions {
        CompressionOptions {
            max_hash_checks: HIGH_MAX_HASH_CHECKS,
            lazy_if_less_than: HIGH_LAZY_IF_LESS_THAN,
            matching_type: MatchingType::Lazy,
            special: SpecialOptions::Normal,
        }
    }

    pub const fn fast() -> CompressionOptions {
        CompressionOptions {
            max_hash_checks: 1,
            lazy_if_less_than: 0,
            matching_type: MatchingType::Greedy,
            special: SpecialOptions::Normal,
        }
    }

    pub const fn huffman_only() -> /*@ (r: @*/ CompressionOptions /*@ ) @*/
    //@     ensures forall|ts: Seq<Token>| #[trigger] tokens_for(r.matching_type, r.max_hash_checks, ts) ==> no_match(ts), // [P12]
    {
        CompressionOptions {
            max_hash_checks: 0,
            lazy_if_less_than: 0,
            matching_type: MatchingType::Greedy,
            special: SpecialOptions::Normal,
        }
    }

    pub const fn rle() -> /*@ (r: @*/ CompressionOptions /*@ ) @*/
    //@     ensures forall|ts: Seq<Token>| #[trigger] tokens_for(r.matching_type, r.max_hash_checks, ts) ==> only_dist1(ts), // [P12]
    {
        CompressionOptions {
            max_hash_checks: 0,
            lazy_if_less_than: 0,
            matching_type: MatchingType::Lazy,
            special: SpecialOptions::Normal,
        }
    }
}

impl Default for CompressionOptions {

    fn default() -> CompressionOptions {
        DEFAULT_OPTIONS
    }
}

//@ impl vstd::std_specs::convert::FromSpecImpl<Compression> for CompressionOptions {
//@     open spec fn obeys_from_spec() -> bool { false }
//@     uninterp spec fn from_spec(v: Compression) -> CompressionOptions;
//@ }
impl From<Compression> for CompressionOptions {
    fn from(compression: Compression) -> CompressionOptions {
        match compression {
            Compression::Fast => CompressionOptions::fast(),
            Compression::Default => CompressionOptions::default(),
            Compression::Best => CompressionOptions::high(),
        }
    }
}

