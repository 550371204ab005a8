#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=list(state),mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
LZ="src/lzss_huff.rs"; PORT="src/direct_ports/lzhuf.rs"; LW="src/lzw.rs"; TD="src/td0.rs"; AH="src/tools/adaptive_huff.rs"; NP="src/tools/node_pool.rs"; RB="src/tools/ring_buffer.rs"; MN="src/main.rs"
p("C01","LZHUF-format compression is lossless for every input",
 "For every byte string within the size limit (which applies to the compressed form as well when that is expanded), including the empty one, LZSS/Huffman compression with the standard options followed by expansion with the same options returns exactly the original bytes and succeeds. The same holds for the direct LZHUF port.",
 ["inputs"],"every byte string: any length, any alphabet, any repetition structure (runs, periods at every window distance, matches ending at every length and at end of data), long enough to rebuild the Huffman tree several times",
 "The tests round-trip six fixed files/strings; window-edge distances, maximal matches, short tails, all-equal data, empty input and binary alphabets are never systematically reached.",
 [LZ,PORT,AH,NP,RB],[("match search/index maintenance","src/lzss_huff.rs LZSS::insert_node/delete_node"),("token loop and end-of-data handling","src/lzss_huff.rs compress/expand; src/direct_ports/lzhuf.rs encode/decode"),("adaptive Huffman coding","src/tools/adaptive_huff.rs")],
 [dict(name="dictionary/index",meaning="sliding window and match index",where="LZSS")],["lzss_huff::compress/expand(STD_OPTIONS)","direct_ports::lzhuf::encode/decode"])
p("C02","LZSS/Huffman is lossless under every valid option set",
 "For every valid combination of window size, lookahead, threshold, precursor and header, expanding the compressed form with the same options returns the original bytes. Without the length header the result is the original followed by at most seven spurious bytes, which come only from the unused bits of the last compressed byte.",
 ["inputs","configurations"],"every input and every option set with 1 <= lookahead, window > lookahead, lookahead <= 4096, window - lookahead <= 4096, threshold <= lookahead, any precursor, header on or off",
 "Only the standard and the Teledisk option sets are tested, and only on a few texts; small windows make index deletions, wrap-around and full-length replacements happen at every step.",
 [LZ,NP,RB,AH],[("options drive window, lookahead, alphabet size","src/lzss_huff.rs Options, compress, expand"),("index deletion/replacement","src/tools/node_pool.rs"),("ring arithmetic","src/tools/ring_buffer.rs")],
 [],["lzss_huff::compress/expand"])
p("C03","LZW is lossless under every valid option set",
 "For every valid LZW option set and every byte string over its symbol range, expanding the compressed form with the same options returns exactly the original bytes. This includes exhausted code spaces, chunk resets at any size, chunk headers at any bit alignment, clear and stop codes, and either bit order.",
 ["inputs","configurations"],"all inputs; all option sets with min symbol 0, fixed width able to hold symbols and special codes, distinct special codes above the symbols, a header (divisor dividing the width, count fitting the header) or a clear code whenever more than one chunk is needed, and either a stop code, a header or a width of at least 8",
 "Tests use one short sentence and one TD0 image with at most four option sets; code exhaustion with stale dictionary, odd chunk sizes, unaligned headers and boundary code counts are not reached.",
 [LW],[("dictionary growth shared by coder and decoder","src/lzw.rs LZW::advance_code/check_match/get_string"),("chunk reset protocol","src/lzw.rs compress/expand chunk loops"),("bit packing","src/lzw.rs LZWCoder/LZWDecoder")],
 [dict(name="dictionary",meaning="code table, reset per chunk",where="LZW")],["lzw::compress/expand"])
p("C04","Teledisk conversion preserves the image and only updates its header",
 "Converting a normal Teledisk image with a valid header to advanced and back returns the same image (for version 2.x possibly followed by at most seven spurious bytes). Either conversion changes only the case of the signature and the header checksum in the first 12 bytes, and codes the rest with LZW if the version byte is below 20 and with LZSS/Huffman otherwise.",
 ["inputs"],"every 12-byte header with valid checksum (all 256 version values, every value of every other header byte) and every body, including an empty one",
 "Tests convert two images with two version values; the version cut-over, the other header bytes, empty and boundary-sized bodies are not exercised.",
 [TD,LZ,LW],[("header rewrite and CRC","src/td0.rs compress/expand/crc16"),("algorithm selection by version byte","src/td0.rs compress/expand"),("Teledisk option sets","src/td0.rs TD_V1_OPTIONS/TD_V2_OPTIONS")],
 [],["td0::compress/expand"])
p("C05","Compressed output is bit-for-bit LZHUF",
 "With the standard options, LZSS/Huffman compression and the direct port produce for every input the same stream, bit for bit, as the classic LZHUF algorithm with a little-endian length header, as long as no Huffman code exceeds the 16 bits that LZHUF can represent. Either decoder expands the stream of either encoder, and of the classic algorithm, to the same data.",
 ["inputs"],"every byte string within the size limits",
 "Byte-exactness is asserted for two text files and two strings; a change applied consistently to encoder and decoder, or visible only for other match/tie/rebuild patterns, passes all tests.",
 [LZ,PORT,AH,NP],[("match choice and tie breaking","insert_node in both modules"),("Huffman update/rebuild order","update/rebuild_huff in both modules"),("position code tables","P_LEN/P_CODE/D_LEN/D_CODE")],
 [],["lzss_huff::compress_slice","lzhuf::encode_slice","lzss_huff::expand_slice","lzhuf::decode_slice"])
p("C06","LZW output is the canonical stream of its options",
 "The LZW stream of every input is fully determined by the options: greedy longest dictionary match, codes assigned in ascending order skipping symbols and special codes, fixed width, requested bit order, a clear code and dictionary reset after every chunk-size codes (no reset if neither chunk header nor clear code could tell the decoder), chunk bit counts in the headers, a final stop code if configured, and zero padding of the last byte. Expansion accepts every such stream.",
 ["inputs","configurations"],"all inputs and all valid option sets (as in C03)",
 "Four short fixed vectors; a symmetric change of coder and decoder (still invertible, but incompatible with Teledisk or other LZW programs) would not be seen for other inputs or options.",
 [LW],[("greedy matching","src/lzw.rs LZW::check_match"),("code assignment","src/lzw.rs LZW::advance_code"),("chunk headers","src/lzw.rs compress"),("bit packing","src/lzw.rs LZWCoder::put_code")],
 [],["lzw::compress_slice","lzw::expand_slice"])
p("C07","The adaptive Huffman model never diverges",
 "For every sequence of symbols, of any length and statistics, the decoder's adaptive model follows the encoder's: each symbol is decoded from exactly the bits that were written for it, before and after any number of frequency rescalings, and for codes of any length the model can produce. The model always remains a complete prefix code over all symbols with consistent frequencies.",
 ["histories","inputs"],"all histories of coded symbols and positions, including extremely skewed statistics (codes longer than 16 bits) and repeated rescaling",
 "Rescaling needs more than 32000 tokens and happens in a test only with English text; skewed statistics with deep codes are never produced, and states right at the rescaling threshold are never enumerated.",
 [AH,PORT],[("frequency update and node exchange","src/tools/adaptive_huff.rs AdaptiveHuffmanTree::update"),("rescaling","src/tools/adaptive_huff.rs rebuild_huff"),("code emission","src/tools/adaptive_huff.rs encode_char/put_code")],
 [dict(name="tree",meaning="frequencies, parents, sons, symbol map",where="AdaptiveHuffmanTree")],["lzss_huff with threshold=lookahead (pure Huffman)","model state via hook"],"snapshot/restore of the model and a small rescaling threshold (cfg retro_verif)")
p("C08","Expanding arbitrary bytes is safe",
 "Expanding any byte sequence with any of the decoders, however malformed, terminates with success or a returned error; it never panics, never loops for ever and never writes more than a bounded amount per input byte (for the LZHUF port: more than the length declared in the header plus one match).",
 ["inputs"],"every byte string offered to every decoder, in particular all short strings, all truncations and all single-byte corruptions of valid streams, and all short LZW code sequences",
 "No test feeds malformed data to any decoder.",
 [LZ,PORT,LW,TD],[("code validation","src/lzw.rs expand"),("end-of-file handling","get_bit in all decoders"),("header parsing","expand/decode")],
 [],["lzss_huff::expand","lzhuf::decode","lzw::expand","td0::expand"])
p("C09","Malformed containers are rejected with the documented error",
 "A Teledisk conversion of data with the wrong signature fails with the file-format error, of data whose header checksum does not match with the checksum error (of data with both faults with either), in all cases writing nothing; data too short for a header fails. LZW expansion of a stream containing a code that is neither known nor the next one to be defined fails with the file-format error. LZW expansion of any other stream succeeds and yields exactly the concatenated strings of its codes.",
 ["inputs"],"all signatures, all single-bit and double-bit header corruptions, all truncated headers, all LZW code sequences up to a bounded length",
 "No test exercises any error path.",
 [TD,LW],[("signature and CRC test","src/td0.rs compress/expand"),("code validity test","src/lzw.rs expand")],
 [],["td0::compress/expand","lzw::expand"])
p("C10","Results do not depend on how I/O is delivered",
 "The outcome of every compression or expansion (bytes written, sizes returned) depends only on the bytes of the input and the options: partial reads, partial writes and interrupted calls at any point change nothing, and the slice functions return the same bytes as the stream functions.",
 ["fault_sequences","inputs"],"every operation and every pattern of short reads, short writes and interruptions",
 "Tests only use regular files and in-memory cursors, which never return short counts or interruptions.",
 [LZ,PORT,LW,TD],[("complete reads and writes","read_exact/bytes/write_all in all modules"),("buffer rewinds","put_code seek back by one"),("slice functions","compress_slice/expand_slice")],
 [],["all public entry points with an instrumented reader/writer"])
p("C11","I/O failures are returned as errors",
 "If any read, write, seek or flush of the underlying streams fails at any point of a compression or expansion (with anything but a request to retry or an end-of-data indication), the call returns an error; it neither panics nor reports success.",
 ["fault_sequences"],"every operation, every call index of the underlying stream, every kind of call",
 "No test injects a failing stream.",
 [LZ,PORT,LW,TD,AH],[("error propagation","? on every stream call"),("final flush","writer.flush()? before returning")],
 [],["all public entry points with a failing reader/writer"])
p("C12","Offsets and reported sizes are exact",
 "Input before the input offset is ignored and output before the output offset is left untouched; the bytes produced and consumed are the same as without offsets. The returned pair is the number of input bytes from the input offset to the end and the number of bytes produced from the output offset on, whatever the output contained before; where the streams are positioned when an option-driven method is called does not matter either. The Teledisk conversions and the LZHUF port work from the current positions of the streams instead (the port's encoder takes the whole input), with the same result.",
 ["configurations","inputs"],"all operations, all input/output offsets within range, outputs that are initially empty, shorter or longer than the result",
 "Only the Teledisk offset of 12 with an empty output is exercised and the returned sizes are never checked.",
 [LZ,PORT,LW,TD],[("seek to offsets","compress/expand prologues"),("size accounting","return values of compress/expand")],
 [],["all public entry points"])
p("C13","Size limits are enforced exactly",
 "Input larger than the configured maximum is rejected with the too-large error before any of the payload is coded, and input of any size up to and including the maximum is not rejected (the limit concerns what is read, in either direction, not what is written); the default maxima are 3,000,000 bytes for Teledisk bodies and (2^32-1)/4 bytes for the option-driven methods, and the formats with a 32-bit length (LZHUF port, LZSS/Huffman with header) reject data it cannot describe.",
 ["inputs","configurations"],"all sizes around every configured maximum, for compression and expansion, with and without offsets",
 "No test has a size limit in play.",
 [LZ,LW,TD,PORT],[("limit tests","compress/expand prologues"),("defaults","STD_OPTIONS, TD_V1_OPTIONS, TD_V2_OPTIONS")],
 [],["compress/expand with streams reporting arbitrary sizes"])
p("C14","The command line tool writes exactly the converted file",
 "For every method and direction the tool leaves in the output file exactly the bytes the library produces for the input, whether the output was absent, shorter or longer before, and exits with success. An existing output is replaced only after the answer y or Y, any other answer leaves it untouched with success. Unknown methods, missing input, rejected data and output that cannot be written completely give a failure status, and the first two leave the output as it was. However the arguments are written, the input and all other files are left alone; if input and output are the same file, it is converted correctly or refused.",
 ["configurations","histories","inputs"],"all combinations of direction, method, input class, prior output state and answer",
 "The command line tests only run the success path on a fresh output file.",
 [MN],[("overwrite prompt","src/main.rs ok_to_overwrite"),("final length","src/main.rs set_len"),("dispatch","src/main.rs main")],
 [],["the retrocompressor executable in a scratch directory"])
p("C15","Calls are deterministic and independent of history",
 "The result of a call depends only on its arguments: repeating it, or making any other calls before it or concurrently with it (including failing ones), does not change the bytes, the sizes or the error.",
 ["histories","schedules"],"all sequences of up to three calls drawn from an alphabet covering every entry point, and concurrent pairs",
 "Every test makes one fresh round trip.",
 [LZ,PORT,LW,TD,AH,NP],[("all state is created per call","compress/expand/encode/decode")],
 [],["all slice functions"])
p("C16","LZSS coding is greedy and stays inside the window",
 "At every position the LZSS coder emits a match at least as long as the longest one that starts in the already coded data still in the window (the last window minus lookahead bytes), if that is longer than the threshold, and a single literal if there is no match longer than the threshold. A match never exceeds the lookahead or the remaining data and never refers to data that has left the window or has not been produced.",
 ["inputs","configurations"],"all inputs and valid option sets (as in C02)",
 "Loss of index entries only costs compression, so round-trip tests never notice it, and the byte-exact tests cover two texts.",
 [LZ,NP,PORT],[("binary tree index","src/lzss_huff.rs insert_node/delete_node"),("node pool","src/tools/node_pool.rs")],
 [],["tokens of lzss_huff::compress output"])
p("C17","A truncated stream expands to a prefix of the original",
 "If a compressed LZSS/Huffman, LZW or advanced Teledisk stream is cut off after any byte behind its header, expansion succeeds and yields a prefix of the original data, never invented bytes, that contains at least everything described by the codes that are complete before the cut. The LZHUF port, which pads missing bits with zeros, still yields at least the declared length and agrees with the original on everything described by complete codes.",
 ["crash_points","inputs"],"every cut position of the compressed stream of every input",
 "No test truncates a stream.",
 [LZ,LW,TD,PORT],[("end of file ends decoding","src/lzss_huff.rs expand, src/lzw.rs expand"),("zero padding","src/direct_ports/lzhuf.rs get_bit")],
 [],["expand/decode of prefixes of compress output"])
p("C18","LZSS/Huffman expansion yields exactly what the stream describes",
 "Expansion of any LZSS/Huffman stream, written by whatever encoder, yields exactly what its codes describe one after the other: literals, and copies of the given length from the given distance, for every length of the code alphabet and every distance up to the window, including copies overlapping their own output. Copies from before the data read the precursor (window minus lookahead places) and zeros in the places of the window that nothing has filled. Decoding ends when the declared length is reached, where the last copy may be completed, or without declared length when the codes are used up. The LZHUF port describes the same for the standard options, missing bits being zeros.",
 ["inputs","configurations"],"every byte string as a stream, every sequence of literals and copies, every valid option set, every declared length",
 "Tests expand only what the own encoder wrote for a few texts; an encoder never uses most distances, so streams of other programs exercise other parts of the window arithmetic.",
 [LZ,PORT,RB,AH],[("copy from the window","src/lzss_huff.rs expand, src/direct_ports/lzhuf.rs decode"),("ring arithmetic","src/tools/ring_buffer.rs"),("position tables","D_CODE/D_LEN in src/tools/adaptive_huff.rs and src/direct_ports/lzhuf.rs")],
 [],["lzss_huff::expand","lzhuf::decode"])
p("C19","Bytes behind the end of a stream are ignored",
 "A stream that marks its own end (LZSS/Huffman with length header, the LZHUF port, LZW with a stop code) expands to the same data, with success and the same reported output size, whatever bytes follow it, such as padding to a sector boundary or another stream.",
 ["inputs","configurations"],"every input, every option set with a length header or a stop code, every string of bytes appended",
 "No test appends anything to a stream; files extracted from old disks are padded to whole sectors.",
 [LZ,PORT,LW],[("declared length ends the loop","src/lzss_huff.rs expand, src/direct_ports/lzhuf.rs decode"),("stop code","src/lzw.rs expand")],
 [],["expand/decode of compress output with appended bytes"])
p("C20","Memory use follows the data, not what the data declares",
 "The memory a call of the library takes is bounded by a constant (16 MiB) and a fixed multiple (32 bytes) of the bytes actually read and written, for every input and every valid option set with codes of at most 16 bits. A declared length, chunk length or container field, however large, and a dictionary that is never cleared do not make it take or reserve more.",
 ["inputs","configurations"],"all byte strings as streams or containers, all inputs, all valid option sets with code widths up to 16 bits",
 "Tests look at results only. A buffer sized by a length field shows up with one hostile or damaged file, a structure that is never trimmed only with long inputs.",
 [LZ,LW,TD,PORT,NP],[("no allocation by declared length","src/lzss_huff.rs expand, src/direct_ports/lzhuf.rs decode, *_slice functions"),("bounded structures","src/tools/node_pool.rs, src/lzw.rs LZW")],
 [],["all compress/expand functions and slice functions"])
p("C21","What the options cannot represent is refused, never miscoded",
 "If compression succeeds, expansion with the same options returns the data, also where options and data do not suit each other: symbols above the LZW maximum, codes wider than the code width, chunks whose bit count their header cannot hold or express, chunks that no header or clear code separates, LZSS thresholds beyond the lookahead, windows whose distances do not fit the position code. Where the data cannot be represented, compression fails with an error or panic. (Special codes are distinct and above the symbols, the end of an LZW stream is visible: stop code, chunk header, or codes of at least 8 bits; the window exceeds the lookahead, and at least two codes are left by the threshold. Without length header up to seven spurious bytes may follow.)",
 ["inputs","configurations"],"all inputs, all option sets, also unsuitable ones",
 "Tests use well-formed option sets; whether an unsuitable one loses data depends on the data.",
 [LW,LZ,AH],[("field widths","src/lzw.rs put_code, put_held"),("dictionary resets","src/lzw.rs compress"),("position codes","src/lzss_huff.rs compress, src/tools/adaptive_huff.rs encode_position")],
 [],["lzw::compress/expand","lzss_huff::compress/expand"])
p("C22","The exported checksum is the Teledisk CRC for every start value and data",
 "td0::crc16 computes the 16-bit CRC with polynomial 0xA097, most significant bit first, without reflection or final inversion, for every start value and every buffer; the checksum of a buffer equals that of its second part started with the checksum of its first part.",
 ["inputs"],"all 65536 start values, all buffers of any length",
 "Tests use it only for one header from start value 0; other programs use it for the other checksums of a Teledisk image.",
 [TD],[("checksum","src/td0.rs crc16")],
 [],["td0::crc16"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
