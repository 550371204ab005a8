#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T={
"C01":("exhaustive enumeration of bounded input families on the real codecs","Every input of the families (all short strings, every run length, period, distance and tail at the window edges, lengths around each rescaling) is compressed and expanded by the real code. Inputs outside the families are not explored."),
"C02":("exhaustive enumeration of option sets x inputs on the real codec","All small option sets times all short strings and lassos, larger option sets times structured data, executed on the real code. Small windows stand for large ones: wrap-around, deletion and replacement happen at every step."),
"C03":("exhaustive enumeration of option sets x inputs on the real codec","All option sets of a grid (header, chunk, range, special codes, width, bit order) times all short strings, plus full-size options around every boundary, executed on the real code."),
"C04":("exhaustive enumeration of headers x bodies on the real code","All version bytes, all values of every header byte, bodies of every short length, executed on the real code; checksum and payload are recomputed independently."),
"C05":("reference model of LZHUF run in lockstep with the real coders over enumerated inputs","The model is an independent re-implementation of LZHUF.C; every model trace (token sequence) is compared bit for bit with both encoders and replayed through both decoders."),
"C06":("reference model of LZW run in lockstep with the real coder over enumerated options x inputs","Every model trace is compared bit for bit with the real stream and replayed through the real decoder, for all option sets of the grid and all short strings."),
"C07":("explicit-state closure of the real adaptive model, plus enumerated histories","Breadth-first search over the states of the real Huffman tree (small alphabets, lowered rescaling limit, snapshot by hook), invariants checked in every state, encoder and decoder compared on every transition; full-size histories with every short tail around the real rescaling point."),
"C08":("exhaustive enumeration of malformed inputs on the real decoders","All short byte strings, all truncations and byte corruptions of valid streams, all short code sequences; panics, aborts, endless loops and unbounded output are detected."),
"C09":("exhaustive enumeration of faulty headers and LZW code sequences against a reference acceptor","All signatures, all single and double bit flips of headers, all LZW code sequences up to a length; verdict and output of the real code compared with the reference machine."),
"C10":("fault injector: all patterns of short and interrupted stream calls up to a depth","Every stream call of every operation is shortened or interrupted, alone and in all pairs, and the results compared with the undisturbed run."),
"C11":("fault injector: every stream call of every operation failed in turn","Each read, write, seek and flush fails with each error kind, also after one benign deviation; the operation has to return an error."),
"C12":("exhaustive enumeration of offsets x prior outputs on the real code","All combinations of the listed offsets, prior output lengths, operations and inputs."),
"C13":("exhaustive enumeration of sizes around every limit on the real code","Streams reporting every length around the limits and around 2^32; real data around small limits and at the Teledisk limit."),
"C14":("exhaustive enumeration of command line states on the real executable","All combinations of direction, method, input class, prior output and answer in a scratch directory."),
"C15":("all call histories up to a length, all nestings, all two-thread schedules up to two preemptions","Real code under a controlled scheduler that switches threads at stream calls; every result is compared with the one from a fresh process."),
"C16":("real token streams checked against brute-force search over enumerated options x inputs","Every token of every stream is checked against the definition of the longest match in the window."),
"C18":("exhaustive enumeration of token sequences and streams, real decoders against a reference decoder","All token sequences of bounded length over all distances and lengths of small option sets behind every number of literals, every distance of the standard window, all short byte strings as streams; every trace of the reference decoder is compared with the real output."),
"C19":("exhaustive enumeration of streams x appended tails on the real decoders","All listed streams followed by every single byte, pairs of bytes, paddings, other streams and noise; compared with the expansion without the tail."),
"C20":("exhaustive enumeration of headers, streams and data lengths on the real code under a counting allocator","Every byte in every place of the length and chunk headers, all short streams, corruptions of valid streams and data of doubling lengths; the peak memory of every call is compared with the bound. Longer data is not explored."),
"C21":("exhaustive enumeration of unsuitable option sets x inputs on the real code","All option sets of the families (thresholds, distances, symbol ranges, code widths, chunk headers) times structured and short data, on the code built without overflow checks as it is shipped; every compression that succeeds is expanded and compared."),
"C22":("explicit-state enumeration of the whole transition relation of the checksum register on the real function","All 65536 states times all 256 bytes, compared with polynomial division; buffers cut in two at every place show that longer data is processed byte by byte."),
"C17":("all cut positions of all streams of enumerated inputs","Every prefix of every stream is expanded by the real code and compared with what its complete codes stand for."),
}
m=dict(version=1,setup_cmd="./run.sh setup",
 hooks=dict(guard="retro_verif",enable="RUSTFLAGS='--cfg retro_verif' (set by run.sh when it builds the harness)",source_commits=["3b080653096bb1abc4fd117de0986ede8ae94fcf","c6be3a2a80071e99af7ae8908015d203a59d9907"]),
 checks=[dict(property=k,quick_cmd=f"./run.sh {k} quick",thorough_cmd=f"./run.sh {k} thorough",evidence_file=f"evidence/{k}.json",technique="model checking: "+t,level="model_checking",level_note=n) for k,(t,n) in T.items()],
 not_applicable=[],
 notes="run.sh replay <file> executes the case of a replay file again; known_findings.txt lists the repaired defects.")
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json")
json.dump(m,open(p,"w"),indent=1); open(p,"a").write("\n")
