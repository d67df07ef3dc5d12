#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HOOK = "cfg(vsimd_mc): a run-time cap on the detected instruction set, so that every dispatch target is reachable on one CPU"
B64, B32, HEX, UUID, UNI, VS = ("crates/%s/src/" % c for c in
    ("base64-simd", "base32-simd", "hex-simd", "uuid-simd", "unicode-simd", "vsimd"))

prop("C01", "Base64 encoding is exactly RFC 4648 for every input",
 "For each of the four Base64 variants (standard / URL-safe, padded / unpadded), encoding any byte string yields exactly the RFC 4648 text of that variant, of exactly the length the crate's encoded-length calculation announces. This holds for every input length and content, every placement of source and destination, and whichever instruction set the CPU or the build selects.",
 ["inputs", "configurations"],
 "all byte strings (every length and content), all four variants, every source/destination alignment, every instruction-set level",
 "tests encode a handful of known vectors and random strings of length 0..127 on whichever path the test CPU dispatches to; they never enumerate 3-byte groups per SIMD lane, long inputs, or the SSSE3 and scalar paths",
 [B64+"encode.rs", B64+"multiversion.rs", B64+"alsw.rs", B64+"lib.rs", VS+"alsw.rs"],
 [("vectorised split of 24/12-byte groups and ALSW value-to-char mapping, scalar tail, padding", B64+"encode.rs"),
  ("per-ISA dispatch", B64+"multiversion.rs")], hook=HOOK)

prop("C02", "Base64 strict decoding accepts exactly the canonical texts",
 "For each Base64 variant, decoding accepts a text if and only if it is the canonical encoding (right alphabet, right padding for the variant, zero trailing bits) of some byte string, and then returns exactly that byte string; every other text is rejected. The check operation accepts exactly the same texts as decoding, and the exact decoded-length calculation, whenever the text is accepted, equals the number of bytes decoding returns.",
 ["inputs", "configurations"],
 "all byte strings offered as text, in all four variants, at every length, with any number of invalid characters at any positions, on every instruction-set level",
 "tests decode valid random encodings and a few invalid strings; whether every single invalid byte at every offset of every block shape (and every combination whose error flags could cancel) is rejected is a universally quantified statement they only sample, and only on one instruction set",
 [B64+"decode.rs", B64+"check.rs", B64+"alsw.rs", B64+"lib.rs", VS+"alsw.rs"],
 [("length and padding analysis", B64+"decode.rs:decoded_length"),
  ("ALSW char classification with per-block validity flag", VS+"alsw.rs"),
  ("scalar decode table with 0xff error marker and trailing-bit check", B64+"decode.rs")], hook=HOOK)

prop("C03", "Forgiving Base64 decoding follows the WHATWG algorithm",
 "Forgiving decoding accepts a text and returns bytes exactly as the WHATWG 'forgiving-base64 decode' algorithm prescribes: ASCII whitespace is removed anywhere, optional correct padding is allowed, non-zero trailing bits are ignored, everything else is an error. The in-place, copying and allocating entry points accept the same texts and return the same bytes, and a copying call whose destination is shorter than the source never writes out of bounds.",
 ["inputs", "configurations"],
 "all byte strings, in particular every placement and number of whitespace characters relative to the block boundaries of the whitespace scanner and of the decoder, on every instruction-set level",
 "tests use about a dozen short strings and random whitespace sprinkling; the whitespace compaction has 16- and 32-byte block shapes whose every whitespace position / run combination is never enumerated",
 [B64+"forgiving.rs", B64+"ascii.rs", B64+"decode.rs"],
 [("whitespace search and in-place compaction", B64+"ascii.rs"), ("forgiving padding and trailing-bit rules", B64+"forgiving.rs")], hook=HOOK)

prop("C04", "Base32 encoding is exactly RFC 4648 for every input",
 "For base32 and base32hex, padded and unpadded, encoding any byte string yields exactly the RFC 4648 text of that variant, of exactly the announced encoded length. This holds for every input length and content, every placement, and every instruction set.",
 ["inputs", "configurations"],
 "all byte strings, four variants, every alignment and instruction-set level",
 "tests use the RFC vectors plus random strings of length 0..127 on one instruction set; the SSE4.1 and scalar block paths and larger lengths are not enumerated",
 [B32+"encode.rs", B32+"multiversion.rs", B32+"alsw.rs", B32+"lib.rs"],
 [("5-byte to 8-char bit split in vector and scalar form, padding of the last group", B32+"encode.rs")], hook=HOOK)

prop("C05", "Base32 decoding accepts exactly the canonical texts",
 "For each base32 variant, decoding accepts a text if and only if it is the canonical encoding of some byte string in that variant (upper-case alphabet, legal length, right padding, zero trailing bits), and then returns exactly that byte string; the check operation accepts exactly the same texts, and the exact decoded-length calculation agrees with what decoding returns on accepted texts.",
 ["inputs", "configurations"],
 "all byte strings offered as text, four variants, every length, invalid characters at any positions, every instruction-set level",
 "tests decode valid random encodings and a few invalid strings on one instruction set; illegal remainders (1, 3, 6 characters), trailing bits and single or paired invalid characters at each block offset are not enumerated",
 [B32+"decode.rs", B32+"check.rs", B32+"alsw.rs", B32+"lib.rs"],
 [("length/padding rules", B32+"decode.rs:decoded_length"), ("ALSW classification", B32+"alsw.rs"), ("scalar table with error flag", B32+"decode.rs")], hook=HOOK)

prop("C06", "Hex encoding is exact for every input and case",
 "Hex encoding of any byte string in lower or upper case yields exactly two digits of that case per byte, in order, of exactly twice the length. This holds for every input length and content, every placement, and every instruction set.",
 ["inputs", "configurations"],
 "all byte strings, both cases, every alignment and instruction-set level",
 "tests round-trip random strings of length 0..127 on one instruction set; the special-cased lengths and the SSE2 / SSSE3 lookups are not enumerated per lane and byte value",
 [HEX+"encode.rs", HEX+"lib.rs", VS+"hex.rs"],
 [("nibble interleave and charset lookup per ISA", VS+"hex.rs"), ("block loop and short-length special cases", HEX+"encode.rs")], hook=HOOK)

prop("C07", "Hex decoding and checking accept exactly hex text",
 "Hex decoding accepts a text if and only if its length is even and every character is 0-9, a-f or A-F, and then returns exactly the bytes the digit pairs denote, upper and lower case being interchangeable digit by digit. The check operation accepts exactly the texts made only of hex digits (of any length), and the decoded-length calculation accepts exactly the even lengths.",
 ["inputs", "configurations"],
 "all byte strings offered as text, mixed case, every length, invalid bytes at any positions, every instruction-set level",
 "tests round-trip valid random strings and test few invalid ones on one instruction set; SSE2/SSSE3/AVX2/scalar error detection at each lane for each of 256 byte values, and pairs of errors, are not enumerated",
 [HEX+"decode.rs", HEX+"check.rs", HEX+"lib.rs", VS+"hex.rs"],
 [("ALSW / range-compare nibble decoding with validity mask", VS+"hex.rs"), ("block loop, odd tail, special lengths 16 and 32", HEX+"decode.rs")], hook=HOOK)

prop("C08", "UUID parsing accepts exactly the four textual forms",
 "Parsing a UUID accepts exactly: 32 hex digits; 36 characters in 8-4-4-4-12 hyphenated form; that form wrapped in '{' and '}'; that form prefixed with 'urn:uuid:'; upper and lower case mixed freely; and returns exactly the 16 bytes denoted. The simple-only and hyphenated-only parsers accept exactly their own form, and every other length or content is an error.",
 ["inputs", "configurations"],
 "all byte strings, in particular every byte value at every position of each form and every pair of positions, on every instruction-set level",
 "tests parse one or two UUIDs per form; that no separator or digit position tolerates a wrong byte on any instruction set is not settled by samples",
 [UUID+"parse.rs", UUID+"lib.rs", UUID+"spec.rs", UUID+"ext.rs", VS+"hex.rs"],
 [("length dispatch and wrapper checks", UUID+"lib.rs:parse"), ("shuffle to gather digits, separator mask check", UUID+"parse.rs"), ("lane extraction for the last group", UUID+"spec.rs")], hook=HOOK)

prop("C09", "UUID formatting is exact in both forms and cases",
 "Formatting 16 bytes as a simple or hyphenated UUID yields exactly the 32 or 36 characters of that form in the requested case, and the formatting adapters of the UUID type print that same text (lower case for plain display), padded and truncated by the formatter's width, fill, alignment and precision as a string would be. Parsing the result in the matching form gives the original bytes back.",
 ["inputs", "configurations"],
 "all 16-byte values, both forms, both cases, every instruction-set level and all adapter traits",
 "tests format a couple of UUIDs; that each byte lands in its place for all values on all instruction sets is not enumerated",
 [UUID+"format.rs", UUID+"spec.rs", UUID+"ext.rs", UUID+"lib.rs", VS+"hex.rs"],
 [("nibble lookup and shuffle with hyphen insertion", UUID+"format.rs"), ("lane insertion for the displaced bytes", UUID+"spec.rs")], hook=HOOK)

prop("C10", "ASCII validation is exact",
 "A byte string is reported as ASCII if and only if every byte is below 0x80, and the conversion to a string slice succeeds exactly then and returns the same bytes at the same address. This holds for every length, placement and instruction set.",
 ["inputs", "configurations"],
 "all byte strings; every length class of the small-size special cases and every offset of the offending byte",
 "tests compare random strings on one path; each length class (<=8, <=16, <64, 64-byte blocks plus remainder) times each offset of one non-ASCII byte is not enumerated",
 [UNI+"ascii.rs", UNI+"lib.rs", UNI+"multiversion.rs", VS+"mask.rs"],
 [("overlapping loads by length class", UNI+"ascii.rs")], hook=HOOK)

prop("C11", "UTF-32 validation is exact",
 "A sequence of 32-bit units is reported as valid UTF-32 if and only if every unit is a Unicode scalar value (below 0x110000 and not a surrogate 0xD800..0xDFFF). This holds for every length, position of an offending unit, placement and instruction set.",
 ["inputs", "configurations"],
 "all u32 sequences: all 2^32 unit values at each lane, all lengths, every instruction-set level",
 "the function is marked 'TODO: test' apart from few samples; the vector comparison and running maximum are never checked over the value space",
 [UNI+"utf32.rs", UNI+"lib.rs", UNI+"multiversion.rs"],
 [("xor/sub/max range trick", UNI+"utf32.rs")], hook=HOOK)

prop("C12", "UTF-16/UTF-32 endianness swap reverses each unit's bytes",
 "Swapping the endianness of a sequence of 16- or 32-bit units reverses the bytes of each unit and nothing else, for every length and content; the in-place form and the copying form give the same units, and the copying form leaves the source unchanged. Applying the swap twice restores the original.",
 ["inputs", "configurations"],
 "all u16/u32 sequences, every length and (unit-aligned) placement, in-place and copying, every instruction-set level",
 "the functions are marked 'TODO: test'; lengths around the 8/16-unit blocks, tails and both forms are not enumerated",
 [UNI+"utf16.rs", UNI+"utf32.rs", UNI+"lib.rs", VS+"bswap.rs", VS+"simd128.rs", VS+"simd256.rs"],
 [("byte-shuffle block loop plus scalar tail", VS+"bswap.rs")], hook=HOOK)

prop("C13", "No access outside the caller's buffers",
 "No operation reads outside the source slice or writes outside the destination slice, whatever the length, content (valid or invalid), alignment and destination size; read-only inputs are never written. A destination that is too short for the result is reported as an error (or by the documented panic) without any write beyond its end, and a destination of exactly the required size is always accepted.",
 ["inputs", "configurations"],
 "all operations, all lengths, all placements of source and destination relative to inaccessible memory on either side, all destination sizes from zero up to more than needed, valid and invalid contents, every instruction-set level",
 "AddressSanitizer and Miri jobs see only the test inputs (random lengths 0..127, heap-allocated, one instruction set) and do not place exact-size buffers against inaccessible memory for every length and error position",
 [B64+"lib.rs", B64+"encode.rs", B64+"decode.rs", B64+"check.rs", B64+"ascii.rs", B64+"forgiving.rs", B32+"encode.rs", B32+"decode.rs", HEX+"lib.rs", HEX+"encode.rs", HEX+"decode.rs", UUID+"lib.rs", UUID+"parse.rs", UUID+"format.rs", UNI+"ascii.rs", UNI+"utf32.rs", VS+"bswap.rs"],
 [("block-loop thresholds leaving slack for wide loads and stores", B64+"decode.rs"), ("destination length guards", B64+"lib.rs")], hook=HOOK)

prop("C14", "All entry points of an operation agree",
 "For one codec and one input, the borrowed, in-place, boxed, vector, string, appending and convenience entry points all accept or reject alike and produce the same bytes; in-place decoding equals copying decoding even though source and destination overlap. Results do not depend on the destination being longer than needed or on what the destination held before.",
 ["inputs", "configurations"],
 "all inputs of all codecs, all pairs of entry points, all destination surplus sizes and previous contents, every instruction-set level",
 "tests exercise encode/decode plus a few typed variants on random valid data; agreement on every length, on invalid data, with aliasing and with surplus destinations is not enumerated",
 [B64+"heap.rs", B64+"lib.rs", B32+"heap.rs", B32+"lib.rs", HEX+"heap.rs", HEX+"lib.rs", B64+"forgiving.rs", UUID+"ext.rs", UNI+"lib.rs", VS+"tools.rs"],
 [("heap construction from exact decoded length", B64+"heap.rs"), ("aliasing src/dst pointers in decode_inplace", B64+"lib.rs")], hook=HOOK)

prop("C15", "Append operations behave like a log",
 "For any history of appending encodes and decodes on one vector or string, with any capacities and interleaved buffer operations, the buffer always equals the concatenation of its earlier content and the results of the successful appends. A failed appending decode leaves the visible content unchanged, and the buffer stays fully usable.",
 ["histories", "inputs"],
 "all sequences of append operations (valid, invalid, empty, different codecs) interleaved with shrink / reserve / clear / truncate, from all initial lengths and spare capacities",
 "tests append once to an empty or fresh buffer; histories with failures in the middle and with every relation between spare capacity and needed length are not explored",
 [B64+"heap.rs", B32+"heap.rs", HEX+"heap.rs"],
 [("reserve, write into spare capacity, set length only on success", B64+"heap.rs")],
 state=[("Vec/String buffer", "prefix already appended, plus spare capacity", B64+"heap.rs")])

prop("C16", "Results do not depend on instruction set or build features",
 "For every public operation and input the observable result is the same on every instruction-set level the library can select (none, SSE2, SSSE3, SSE4.1, AVX2), whether selected at run time or fixed at compile time, and in every supported feature combination (with or without std, alloc, run-time detection, unstable). On every level the operation completes without using instructions beyond that level.",
 ["configurations", "inputs"],
 "all operations x all instruction-set levels x {run-time detection, static target features} x feature combinations, all inputs",
 "a test run exercises only the best instruction set of the CPU it runs on (plus two static builds), with independent random inputs per build, and never compares builds with one another",
 [VS+"macros.rs", VS+"isa.rs", VS+"native.rs", B64+"multiversion.rs", B32+"multiversion.rs", HEX+"multiversion.rs", UUID+"multiversion.rs", UNI+"multiversion.rs"],
 [("dispatch table resolution, dynamic and static", VS+"macros.rs"), ("feature detection and ISA subsumption", VS+"isa.rs")], hook=HOOK)

prop("C17", "Concurrent and racing first calls give sequential results",
 "Any number of threads may call any operations at the same time, including while the first calls of the process are still selecting an implementation: every call returns what it would return if it ran alone, none crashes, and none blocks for ever. This holds for every interleaving of the threads.",
 ["schedules"],
 "all interleavings (up to a preemption bound, at single-instruction granularity) of racing first calls and of concurrent calls of the same and of different operations",
 "the tests are single-threaded per process or warmed up; the window in which several threads resolve the same dispatch pointer is hit by chance, and shared mutable state would only be noticed in a particular interleaving",
 [VS+"macros.rs", VS+"isa.rs", VS+"native.rs", B64+"lib.rs", B32+"lib.rs", HEX+"lib.rs", UUID+"lib.rs", UNI+"lib.rs"],
 [("one relaxed atomic function pointer per operation, idempotent initialisation", VS+"macros.rs")],
 state=[("dispatch pointer", "implementation chosen for one operation", VS+"macros.rs:dispatch")], hook=HOOK)

prop("C18", "Parallel Base64 encoding equals sequential encoding",
 "Parallel encoding produces exactly the text that sequential encoding produces, for every variant, input length, number of worker threads and execution order of its chunks. If the destination is shorter than the encoded length it reports an error, as documented, instead of panicking or writing out of bounds.",
 ["schedules", "inputs"],
 "all input lengths around the chunking arithmetic, all worker counts, all completion orders of the chunks, all variants, destination lengths below / at / above the encoded length",
 "the only test is marked ignored and encodes one large input with the default pool; chunk arithmetic by thread count, padding of the last chunk, and short destinations are never explored",
 [B64+"parallel.rs"],
 [("chunk size computation and zip of source and destination chunks", B64+"parallel.rs"), ("padding only in the chunk with an incomplete group", B64+"parallel.rs")])

prop("C19", "Vector operations equal their scalar specification on every ISA",
 "Every lane-wise vector operation offered by the SIMD abstraction (arithmetic, saturating arithmetic, comparisons, min/max, shifts, shuffles, blends, packs, byte swaps, masks, loads and stores, for 128- and 256-bit vectors) returns, on each instruction set that offers it, exactly the value of its scalar per-lane definition for all operand values. The 256-bit form equals the 128-bit form applied per half wherever the operation is defined per half.",
 ["inputs", "configurations"],
 "all operations x all instruction-set levels x all operand values per lane (exhaustive for 8-bit pairs, bounded for wider lanes) x all lanes",
 "the crate's tests only validate a few lookup-table constants; an operation that is wrong on one instruction set for a few operand values is invisible unless a codec test happens to hit it",
 [VS+"simd128.rs", VS+"simd256.rs", VS+"unified.rs", VS+"scalable.rs", VS+"mask.rs", VS+"vector.rs", VS+"simulation.rs"],
 [("per-ISA intrinsic selection", VS+"simd128.rs")])

prop("C20", "Length calculations are exact and never overflow",
 "For every size up to the documented limit the encoded-length calculations return exactly the length encoding produces, beyond the limit they panic as documented rather than return a wrapped value, and the estimated decoded length is never smaller than what decoding any text of that length can return. The calculations never overflow, and are consistent with the exact decoded length on canonical texts.",
 ["inputs"],
 "all sizes from 0 to the largest representable size, all variants",
 "tests call them implicitly for small sizes only; behaviour near the arithmetic limits and for every residue is not sampled",
 [B64+"lib.rs", B64+"encode.rs", B64+"decode.rs", B32+"lib.rs", B32+"encode.rs", B32+"decode.rs", HEX+"lib.rs"],
 [("closed-form length formulas with asserted limits", B64+"encode.rs:encoded_length_unchecked")])

prop("C21", "Calls are independent of the call history",
 "The result of a call depends only on its own arguments: after any sequence of earlier calls in the same process and thread, successful, failed or panicked, of the same or other operations and variants, every operation behaves as in a fresh process. No state is carried from one call to the next.",
 ["histories"],
 "all sequences of calls up to a depth over an alphabet covering every operation, variant, case and both successful and failing inputs of several size classes",
 "each test performs an isolated call or a round trip; sequences mixing variants, cases, failing calls and size classes are not explored, so a stale cache or sticky flag would go unnoticed",
 [VS+"macros.rs", B64+"lib.rs", B32+"lib.rs", HEX+"lib.rs", UUID+"lib.rs", UNI+"lib.rs"],
 [("all operations are pure functions over their arguments apart from the dispatch pointer", VS+"macros.rs")], hook=HOOK)

prop("C22", "Shared byte-level helpers are exact on every ISA",
 "The shared vector helpers used by the codecs (ASCII upper/lower-casing, byte-order swapping of 16-, 32- and 64-bit units, hex digit classification, hex encoding and decoding of single vectors, table lookup classification, any/all mask tests, running a closure on the best instruction set) agree with their byte-wise definition for every operand on every instruction set that offers them.",
 ["inputs", "configurations"],
 "all helpers x all instruction-set levels x all byte values at all lanes, and all lengths for slice helpers",
 "most helpers are tested only indirectly through one codec on one instruction set, or by an ignored test",
 [VS+"ascii.rs", VS+"bswap.rs", VS+"hex.rs", VS+"alsw.rs", VS+"mask.rs", VS+"table.rs", VS+"native.rs"],
 [("range tricks and lookup tables over Scalable vectors", VS+"alsw.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
