"""Which obligations decide which property, and how each check is labelled."""
import fnmatch, re

# path pattern (module::Type::function) -> properties its contract serves
OBL = [
    ("bitstream::*", "P01 P04 P05"),
    ("bit_reverse::*", "P10 P01"),
    ("lzvalue::*", "P09 P14 P01"),
    ("huffman_table::create_codes_in_place", "P10 P01"),
    ("huffman_table::build_length_count_table", "P10 P01"),
    ("huffman_table::HuffmanTable::get_l*_huff*", "P14 P01"),
    ("huffman_table::HuffmanTable::get_distance_huffman", "P14 P01"),
    ("huffman_table::HuffmanTable::*", "P10 P14 P01"),
    ("huffman_table::*", "P14 P01"),
    ("encoder_state::*", "P01 P14"),
    ("stored_block::*", "P01 P05 P11"),
    ("zlib::*", "P02"),
    ("checksum::*", "P02 P03 P15"),
    ("output_writer::*", "P14 P01"),
    ("chained_hash_table::*reset*", "P06 P17"),
    ("chained_hash_table::*", "P09 P06 P17"),
    ("matching::*", "P09 P12"),
    ("rle::*", "P12 P09"),
    ("input_buffer::*", "P04 P01 P17"),
    ("length_encode::EncodedLength::*", "P13"),
    ("length_encode::encode_lengths*", "P13 P17"),
    ("length_encode::update_*", "P13"),
    ("length_encode::add_*", "P13"),
    ("length_encode::in_place*", "P10 P17"),
    ("length_encode::*", "P10 P13"),
    ("huffman_lengths::*write*", "P13 P01"),
    ("huffman_lengths::*", "P11 P13"),
    ("lz77::*", "P09 P01 P04 P17"),
    ("compress::*", "P01 P04 P05 P08 P11 P17"),
    ("deflate_state::*reset*", "P06 P17"),
    ("deflate_state::*", "P04 P06 P08 P17"),
    ("writer::*drop*", "P16 P17"),
    ("writer::*", "P02 P03 P04 P05 P06 P08 P15 P16 P17"),
    ("lib::*gzip*", "P03"),
    ("lib::*zlib*", "P02"),
    ("lib::*", "P01 P17"),
    ("compression_options::*", "P12"),
]

SAFETY = re.compile(r"overflow|underflow|division by zero|decreases|termination|bit shift", re.I)
SAFETY_CLAUSE = re.compile(r"^\s*(requires\s+)?false,?\s*$|panic\(\)|unreached")


def props_of(fn):
    for pat, ps in OBL:
        if fnmatch.fnmatchcase(fn, pat):
            return ps.split()
    return []


def concerns(pid, fn, message, clause):
    """Does the failure of this obligation speak about property pid?"""
    tags = re.findall(r"\[(P\d\d(?:[ ,]+P\d\d)*)\]", clause)
    if tags:
        return any(pid in t for t in tags)
    if fn.startswith("spec::"):
        return False
    if pid == "P07":
        if not message:
            return True
        return bool(SAFETY.search(message)) or (
            "precondition" in message and (bool(SAFETY_CLAUSE.search(clause)) or "<" in clause or "is_some" in clause or clause.strip() == "false"))
    return pid in props_of(fn)


TRUSTED = [
    "Verus 0.2026.09.13.671956e (translation, vstd specifications of slices, Vec, iterators, integers) and Z3",
    "tools/vx.py: mechanical extraction of /repo/src (what it drops and rewrites is listed in DESIGN.md)",
    "contracts/spec/deflate.rs and the first part of contracts/spec/stream.rs: RFC 1951 written as specification functions",
    "contracts/spec/vx.rs: contracts of what the crate uses from core/std and its dependencies (io::Write, chunks/peekable, slice comparison and sorting, adler32, crc32, gzip header)",
]
ASSUMPTIONS = [
    "the extraction evaluates cfg for a 64-bit target with the gzip feature and debug assertions on",
    "integers are machine integers with overflow checked as an obligation; usize is 64 bits wide",
    "memory allocation does not fail",
    "P17: process_chunk, the package-merge after its scratch is cleared and the block-type decision are functions of their arguments (safe code without global state); the three `assume` lines naming chunk_of, lens_of / enc_of and form_of say so",
]

_b = "executable statement of the property against the real crate (harness/src/bin/api.rs), random bounded cases; counts as bounded, not proved"
PROPS = {p: {"level": "proof", "bounded": _b} for p in
         "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17".split()}
