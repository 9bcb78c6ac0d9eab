#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ALL=["src/lib.rs","src/writer.rs","src/compress.rs","src/deflate_state.rs","src/encoder_state.rs","src/bitstream.rs","src/huffman_table.rs","src/huffman_lengths.rs","src/length_encode.rs","src/stored_block.rs","src/lz77.rs","src/matching.rs","src/chained_hash_table.rs","src/rle.rs","src/output_writer.rs","src/lzvalue.rs","src/input_buffer.rs","src/bit_reverse.rs"]
H="cfg(deflate_verif) re-exports the private modules"
p("P01","Raw one-shot output decodes to exactly the input",
 "For every input byte string and every setting of the compression options, the one-shot raw compression functions return a single complete RFC 1951 stream: a sequence of blocks of which exactly the last is marked final, with nothing after its final byte, that any conforming decoder expands to exactly the input.",
 ["inputs","configurations"],"all byte strings (any length, crossing any number of 32 KiB windows and block boundaries) and all option values, including the public fields set by hand",
 "The tests compress about a dozen fixed inputs at the preset option values; window slides, block splits, lazy-match carry-over and length-limited codes depend on the exact input.",
 ALL,[("block loop and block type choice","src/compress.rs compress_data_dynamic_n"),("LZ77 windowing","src/lz77.rs lz77_compress_block"),("code construction","src/huffman_table.rs create_codes_in_place"),("bit output","src/bitstream.rs LsbWriter")],
 ["deflate_bytes","deflate_bytes_conf"],[("stream so far","bits already emitted plus pending bits","src/bitstream.rs LsbWriter"),("window","bytes not yet emitted plus history","src/input_buffer.rs InputBuffer")])
p("P02","zlib output is a correctly framed RFC 1950 stream",
 "Every stream produced by the zlib functions and the zlib encoder starts with a two-byte header that announces deflate with a 32 KiB window, no preset dictionary and a value divisible by 31, continues with a raw deflate stream for the data, and ends with the big-endian Adler-32 of exactly that data and nothing more.",
 ["inputs","configurations","histories"],"all inputs and options, one-shot or through any sequence of writes and flushes",
 "Tests decode a few fixed inputs; header check bits, checksum of partially consumed writes, and flush before the first write are not covered.",
 ["src/zlib.rs","src/lib.rs","src/writer.rs","src/checksum.rs"],[("header and check bits","src/zlib.rs get_zlib_header"),("header before data, trailer after","src/writer.rs ZlibEncoder"),("one-shot framing","src/lib.rs deflate_bytes_zlib_conf")],
 ["deflate_bytes_zlib","deflate_bytes_zlib_conf","write::ZlibEncoder"],[("header_written","whether the header has been queued","src/writer.rs ZlibEncoder")])
p("P03","gzip output is a correctly framed RFC 1952 member",
 "Every stream produced by the gzip functions and the gzip encoder is the header given by the builder, followed by a raw deflate stream for the data, followed by the little-endian CRC-32 of exactly that data and the little-endian length of the data modulo 2^32, and nothing more.",
 ["inputs","configurations","histories"],"all inputs, options and header builders, one-shot or through any sequence of writes, flushes and resets",
 "Two tests decode one file each; trailer field order, header placement after reset or before a first flush, and partially consumed writes are not covered.",
 ["src/lib.rs","src/writer.rs"],[("header and trailer","src/writer.rs gzip::GzEncoder"),("one-shot framing","src/lib.rs deflate_bytes_gzip_conf")],
 ["deflate_bytes_gzip","deflate_bytes_gzip_conf","write::GzEncoder"],[("header","header bytes not yet queued","src/writer.rs GzEncoder")])
p("P04","Streaming: any split into writes yields the concatenated data",
 "Whatever sequence of write calls (any sizes, including empty) is made on an encoder, each reporting how many leading bytes it consumed, after finish the wrapped writer has received a complete stream that decodes to exactly the concatenation of the consumed bytes, in order.",
 ["inputs","histories","configurations"],"all sequences of writes of any lengths ended by finish, for the raw, zlib and gzip encoders and all options",
 "Tests use a few chunk sizes on one file; carry-over between calls (pending byte, overlap into the next window, unhashed bytes, full buffers) depends on where the splits fall.",
 ["src/writer.rs","src/compress.rs","src/deflate_state.rs","src/lz77.rs","src/input_buffer.rs"],[("consume and buffer input","src/input_buffer.rs add_data, slide"),("carry-over state","src/lz77.rs LZ77State"),("drain output","src/compress.rs compress_data_dynamic_n, src/writer.rs compress_until_done")],
 ["write::DeflateEncoder","write::ZlibEncoder","write::GzEncoder"],[("overlap, pending byte, bytes_to_hash","position carried into the next call","src/lz77.rs LZ77State")])
p("P05","A successful flush makes all data so far decodable",
 "When flush returns Ok, the wrapped writer has received everything needed to decode all bytes written so far: the output ends on a byte boundary with an empty non-final stored block (00 00 FF FF), and the data written afterwards continues the same valid stream.",
 ["inputs","histories","configurations"],"all interleavings of writes and flushes, including flush first, repeated flushes and flushes at any distance from window and block boundaries",
 "Tests flush a handful of times in one file; the state after a flush (unhashed bytes, window position) only matters for particular positions.",
 ["src/writer.rs","src/compress.rs","src/lz77.rs","src/stored_block.rs","src/bitstream.rs"],[("sync block and draining","src/compress.rs compress_data_dynamic_n"),("processing the lookahead on sync","src/lz77.rs lz77_compress_block")],
 ["write::DeflateEncoder::flush","write::ZlibEncoder::flush","write::GzEncoder::flush"],[("needs_flush","a sync block is not completely written out yet","src/deflate_state.rs DeflateState")])
p("P06","Reset finishes the old stream and starts from a clean state",
 "When reset returns Ok, the returned old writer holds a complete stream for everything written before, and from then on the encoder behaves exactly, byte for byte, as a newly created encoder with the same options: nothing of the earlier data, checksum, header state or match history influences the new stream.",
 ["inputs","histories","configurations"],"all histories of writes, flushes and resets, for the raw, zlib and gzip encoders (for gzip: a new encoder with the header given to the reset)",
 "Tests reset once and reuse the same data; leftovers only show for particular second streams.",
 ["src/writer.rs","src/deflate_state.rs","src/lz77.rs","src/chained_hash_table.rs","src/output_writer.rs"],[("state reset","src/deflate_state.rs DeflateState::reset, src/lz77.rs LZ77State::reset, src/chained_hash_table.rs reset"),("checksum and header reset","src/writer.rs")],
 ["write::DeflateEncoder::reset","write::ZlibEncoder::reset","write::GzEncoder::reset","write::GzEncoder::reset_with_builder"])
p("P07","No panic, overflow or hang on any input",
 "No input, option value or sequence of encoder operations over a writer that accepts data makes the library panic, overflow an integer, index out of bounds or loop forever.",
 ["inputs","configurations","histories"],"all inputs, all option values including hand-set fields, all operation sequences",
 "Tests run a fixed set of inputs; arithmetic on positions, counts and code lengths only goes wrong for extreme distributions or particular alignments.",
 ALL,[("index and arithmetic bounds","every module"),("loop termination","src/lz77.rs, src/length_encode.rs, src/writer.rs compress_until_done")],
 ["all public functions"],hook=H)
p("P08","Short, interrupted and failing writers lose or repeat nothing",
 "If the wrapped writer accepts only part of the data, reports an error such as interrupted or would-block and is retried, or accepts nothing, no output byte is lost, repeated or reordered: the accepted bytes are always a prefix of one valid stream of the consumed input, errors other than interruption are reported to the caller (a writer accepting zero bytes as an error, never as an endless loop), and retrying writes and flushes until finish succeeds completes that stream.",
 ["fault_sequences","histories","inputs"],"all sequences of short writes, zero-length writes and errors at any call of the wrapped writer, followed by retries of the failed write or flush",
 "Existing tests use one short-writing writer; errors in the middle of a call that already consumed input, or during a flush, are not covered.",
 ["src/compress.rs","src/writer.rs","src/deflate_state.rs"],[("position in the output buffer","src/deflate_state.rs output_buf_pos"),("partial writes and errors","src/compress.rs compress_data_dynamic_n"),("retry loop","src/writer.rs compress_until_done")],
 ["io::Write for the encoders","finish"],[("output_buf_pos","how much of the output buffer the writer has accepted","src/deflate_state.rs")])
p("P09","Every back-reference is valid and reproduces the data",
 "Every length/distance pair in any output has a length of 3 to 258 and a distance of 1 to 32768 that does not reach before the start of the stream, and copying from that distance reproduces exactly the input bytes it stands for, including overlapping copies and matches crossing window boundaries.",
 ["inputs","configurations","histories"],"all inputs, match-finding strategies and option values, and all ways the input arrives",
 "Tests inspect a few hand-made token sequences; stale hash-chain entries, the edge of the window, and matches into the lookahead need particular data.",
 ["src/lz77.rs","src/matching.rs","src/chained_hash_table.rs","src/rle.rs","src/lzvalue.rs","src/output_writer.rs","src/input_buffer.rs"],[("match search","src/matching.rs longest_match, get_match_length"),("token emission","src/lz77.rs process_chunk_lazy, process_chunk_greedy, src/rle.rs"),("hash chains","src/chained_hash_table.rs")],
 ["tokens decoded from the output"],hook=H)
p("P10","Huffman codes are valid, complete and within the length limits",
 "For every symbol frequency distribution that can occur, the generated code lengths give every used symbol a non-zero length within the limit of its alphabet (15, or 7 for the code-length alphabet), give unused symbols length zero, and exactly fill the code space when two or more symbols are used; the codes assigned to them are the RFC 1951 canonical codes, no code being a prefix of another.",
 ["inputs"],"all frequency tables that a block can produce, including highly skewed ones that need length limiting, and zero or one used symbols",
 "A few small frequency tables are tested; length limiting needs Fibonacci-like distributions.",
 ["src/length_encode.rs","src/huffman_table.rs","src/bit_reverse.rs","src/huffman_lengths.rs"],[("length generation and limiting","src/length_encode.rs in_place_lengths, enforce_max_code_lengths"),("canonical codes","src/huffman_table.rs create_codes_in_place")],
 ["code length tables in dynamic block headers"],hook=H)
p("P11","Output size is bounded and the smallest block type is used",
 "No block is longer than its data would be as stored blocks or with the fixed codes, so compressing never expands n bytes of input by more than 10 bytes for every full 31 KiB (31744 bytes) of input plus 10 bytes, and 10 bytes more for every flush in between, framing excluded.",
 ["inputs","configurations"],"all inputs, options, and ways of writing and flushing",
 "Only a few compressible files are size-checked; cost estimates matter for incompressible and mixed data.",
 ["src/huffman_lengths.rs","src/compress.rs","src/stored_block.rs"],[("cost estimates and choice","src/huffman_lengths.rs gen_huffman_lengths, calculate_block_length, stored_length, stored_padding")],
 ["length of the output, block types"],hook=H)
p("P12","RLE and Huffman-only settings restrict the matches as documented",
 "With the run-length-only settings every back-reference in the output has distance 1, and with the Huffman-only settings the output contains no back-references at all, for any input, while the output still decodes to the input.",
 ["inputs","histories"],"all inputs and ways of writing them with those two option presets",
 "One file is compressed with each preset and only decoded, never inspected.",
 ["src/lz77.rs","src/rle.rs","src/compression_options.rs","src/matching.rs"],[("strategy dispatch","src/lz77.rs process_chunk"),("run matching","src/rle.rs process_chunk_greedy_rle"),("zero hash checks find nothing","src/matching.rs longest_match")],
 ["tokens decoded from the output"],hook=H)
p("P13","Dynamic block headers describe exactly the codes used",
 "In every dynamic block, reading the header as RFC 1951 prescribes (counts, code-length code in its fixed order, run-length symbols 16, 17 and 18 with their extra bits) yields exactly the literal/length and distance code lengths with which the block body is encoded.",
 ["inputs"],"all sequences of 257 to 286 plus 1 to 30 code lengths",
 "Run-length coding of lengths is tested on a handful of sequences; runs across the two tables and runs at the limits 6, 10, 138 need particular tables.",
 ["src/length_encode.rs","src/huffman_lengths.rs","src/huffman_table.rs"],[("run-length coding","src/length_encode.rs encode_lengths_m"),("header output","src/huffman_lengths.rs write_huffman_lengths")],
 ["dynamic block headers"],hook=H)
p("P14","Lengths and distances are coded as RFC 1951 prescribes",
 "Every match length 3 to 258 and distance 1 to 32768 is output as the RFC 1951 symbol whose range contains it together with the right number of extra bits and offset, so that decoding the pair gives back exactly that length and distance; the symbol frequencies used to build the codes count exactly the symbols output.",
 ["inputs"],"all 256 lengths and 32768 distances, and all token sequences up to a full block",
 "Tests check a few values of the tables; a wrong entry matters only when that length or distance occurs.",
 ["src/huffman_table.rs","src/output_writer.rs","src/encoder_state.rs","src/lzvalue.rs"],[("code tables","src/huffman_table.rs get_length_code, get_distance_code, get_*_and_extra_bits"),("frequency counting","src/output_writer.rs DynamicWriter")],
 ["symbols and extra bits in the output"],hook=H)
p("P15","The checksum accessor covers exactly the consumed data",
 "At any point in the life of a zlib or gzip encoder the checksum it reports is the Adler-32, respectively CRC-32, of exactly the bytes that earlier write calls since creation or the last reset reported as consumed.",
 ["histories","inputs","fault_sequences"],"all sequences of writes (completely, partly or not at all consumed), flushes and resets, with any writer behaviour",
 "The checksum is only checked indirectly by decoding a few complete streams.",
 ["src/writer.rs","src/checksum.rs"],[("update by consumed count","src/writer.rs Write for ZlibEncoder, Write for GzEncoder"),("restart on reset","src/writer.rs reset")],
 ["ZlibEncoder::checksum","GzEncoder::checksum"])
p("P16","Dropping an encoder completes the stream like finish",
 "When an encoder that has not been finished is dropped without a panic in progress, the wrapped writer receives exactly the bytes that finish would have produced; after a successful finish, dropping writes nothing more.",
 ["histories","inputs"],"all histories of writes and flushes ended by dropping the encoder, for the raw, zlib and gzip encoders",
 "One test drops one encoder.",
 ["src/writer.rs"],[("Drop implementations","src/writer.rs")],
 ["bytes received by a borrowed writer"])
p("P17","The bytes produced do not depend on how the input is split",
 "For given data and options, the bytes produced by an encoder without intermediate flushes are the same for every way of splitting the data into write calls, and the same as those of the one-shot function.",
 ["inputs","histories"],"all ways of splitting any input into writes, all options",
 "Tests compare decoded data only; equality of output for two different call histories is a relation between two runs.",
 ["src/lz77.rs","src/compress.rs","src/writer.rs"],[("windows are only processed when full","src/lz77.rs lz77_compress_block")],
 ["output of two runs"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]; f.write(json.dumps(x)+"\n")
print(len(P))
