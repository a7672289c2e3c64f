#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TK = "lib/osi/src/json/token.rs"
p("C01", "JSON text is split into exactly the right tokens and diagnostics, in order",
  "For every input text, the push-based JSON tokenizer reports exactly one determined sequence of tokens and diagnostics, in text order: punctuation, keywords, whitespace runs, numbers and strings each yield their token, and every deviation from JSON (stray characters, unknown keywords, comments, incomplete numbers or strings, bad escapes) yields its diagnostic while tokenizing goes on behind it. Well-formed JSON never yields a diagnostic. The two leniency switches (leading zeros, leading plus) change only the diagnostics and tokens for numbers that use them.",
  ["inputs", "configurations"], "every sequence of characters (all of Unicode), every combination of leniency switches",
  "The unit tests check some tens of fixed texts; the tokenizer has 17 states and each character class matters in each of them, so almost all state/character/next-state combinations are never run.",
  [TK], [("state machine of the tokenizer", TK + ": Tokenizer::push")],
  [("state", "what the tokenizer is inside of (none, keyword, number part, string, escape, ...)", TK)],
  ["the report callbacks"])
p("C02", "JSON tokenizing is independent of how the text arrives and survives aborts",
  "Tokens and diagnostics depend only on the concatenation of everything pushed since the last start, never on how it was cut into pieces. After a reset, after the end of the input, or after the receiver aborted a report, the tokenizer is back in its initial state and treats what follows as a new text; an abort is returned to the caller and nothing more is reported for that piece. The status query answers whether a token is still open.",
  ["histories", "inputs"], "every split of every text into pushes, every reset/end/abort position, every number of texts on one tokenizer",
  "Tests feed whole strings once; they do not try all cut points, resumption after an abort inside multi-report characters, or reuse after errors.",
  [TK], [("push/push_str/parse_str/reset/status, return to the initial state on break", TK)],
  [("accumulators", "text, digits and characters of the open token", TK)], ["report callbacks", "status()", "return values"])
p("C03", "JSON strings and numbers decode to the right characters and digits",
  "A string token carries the exact source text between the quotes and the decoded characters: every simple escape, every \\uXXXX escape and every surrogate pair decodes to its character, unpaired surrogates and malformed escapes add no character of their own and are diagnosed, and characters outside escapes are kept as they are. A number token carries its exact source text together with sign, integer digits, fraction digits and exponent sign and digits exactly as written.",
  ["inputs"], "every string body (all code points, all escapes, all surrogate combinations) and every number spelling",
  "Escape decoding is a sub-machine over 2^16 code units and pairs of them; tests cover a handful.",
  [TK], [("escape, surrogate and number sub-states", TK)], None, ["Token::String", "Token::Number"])

PA = "lib/osi/src/args/parse.rs"; LA = "lib/osi/src/args/layout.rs"; RE = "lib/osi/src/args/report.rs"; HE = "lib/osi/src/args/help.rs"
p("C04", "Command line: every argument is consumed once, in order, by the right command",
  "For every command schema and argument list, leading arguments select the longest chain of defined command names, the first other argument ends the selection, and from then on each argument is delivered exactly once, in order, as flag, flag value, or parameter of the selected command. After a lone double dash everything is a parameter. The selected command learns the end of its parameters exactly once, the result names the selected command, and an incomplete command path is refused instead of being run.",
  ["inputs", "configurations"], "every schema (any set of command paths) and every list of arguments, including non-UTF-8 ones",
  "Tests use one or two schemas and a few argument lists; selection depends on prefix relations between all paths and on how flags, dashes and parameters interleave.",
  [PA, LA], [("argument loop", PA), ("command lookup by path prefix", LA)],
  [("cursor", "how far into which command path the parser is", LA)], ["report callbacks", "parse() result"])
p("C05", "Command line: a flag resolves to the innermost definition in scope",
  "A long flag resolves to its definition in the innermost selected command that defines it, else in the next enclosing one; flags of commands that are not selected are unknown. Exact names win over the negated reading of a `no-` prefix; value, negation and missing-value rules follow the mode of the flag, and every violation is reported once as its specific error naming the flag, after which parsing goes on. A flag that takes a value takes the text behind the first equal sign, or else the whole next argument whatever it is.",
  ["inputs", "configurations"], "every schema with flags on any command level and every argument list",
  "Scope resolution, negation, value forms and error reporting multiply; tests cover single examples of each.",
  [PA, LA], [("flag lookup through enclosing commands", LA + ": find_flag"), ("flag handling", PA)],
  None, ["report callbacks with their context (command, flag)"])
p("C06", "Command line: value receivers store, accumulate and override as documented",
  "Values delivered to the provided receivers behave like their type says: scalars keep the last value, lists append in order, optional variants tell unset from set, toggles follow the last occurrence, and text receivers refuse non-UTF-8 input with an error and keep their previous content. Operations a receiver does not support are refused with the documented error and leave it unchanged.",
  ["histories", "inputs"], "every sequence of set/toggle/value reports on every provided receiver type",
  "Tests touch few receiver types, mostly with one value.",
  [RE], [("receiver implementations for bool, Option, str, String, Vec, ...", RE)], None, ["receiver content after each report"])
p("C07", "Command line help lists exactly the flags and sub-commands of the command",
  "The help text of a command shows the given information, the usage line with its full command path, all its own flags (sorted, aligned to the longest name) and exactly its direct sub-commands (sorted), each with its description, and nothing else. Sections without entries are left out. Help is rendered exactly if it was asked for and not revoked since, and then for the command that was selected (or the nearest defined one above it) when it was asked for last.",
  ["configurations", "inputs"], "every schema, every command of it and every argument list",
  "One fixed schema is tested; which commands count as direct children depends on the whole set of paths.",
  [HE, LA], [("help writer", HE)], None, ["text written", "result"])
HS = "lib/osi/src/hash/sha256.rs"
p("C08", "SHA-256 of every message, however it is fed in",
  "The digest is the SHA-256 (FIPS 180-4) of the bytes pushed since the last start, for every message length and content and however the message is cut into pushes or given as zero runs. Finishing or resetting returns the engine to its initial state, pushing nothing changes nothing, and the reset query is true exactly when no byte was pushed since.",
  ["inputs", "histories"], "every byte sequence of every length, every cut into pushes and zero runs, every sequence of messages on one engine",
  "A few known-answer vectors cover few of the 64 residues of the message length and few cut positions.",
  [HS, "lib/osi/src/hash.rs"], [("block buffering and padding", HS)], [("remaining/total", "fill level of the block buffer and length so far", HS)], ["digest", "is_reset()"])
p("C09", "HMAC-SHA-256 for every key and message, on one reusable engine",
  "The authentication code is HMAC (RFC 2104) with SHA-256 for every key length, message and cut into pushes. One engine serves any number of messages under its key; finishing or resetting in the middle of a message leaves nothing behind.",
  ["inputs", "histories"], "every key (shorter, equal, longer than a block), every message, every push pattern, every sequence of messages and resets",
  "Tests use RFC vectors, each with one push.",
  ["lib/osi/src/hmac.rs", HS], [("inner/outer pad handling", "lib/osi/src/hmac.rs")], None, ["authentication code"])
RN = "lib/osi/src/rng.rs"
p("C10", "Random generators produce the published sequences for every seed and history",
  "For every seed and every sequence of 32-bit draws, 64-bit draws, splits, conversions and jumps, the generators return the values of the published SplitMix64 (Java SplittableRandom) and xoshiro256++ algorithms. Splitting advances the original by exactly two steps and gives an independent generator; a xoshiro generator seeded from SplitMix64 takes four successive values, and an all-zero seed is replaced as documented; 2^128 and 2^192 jumps commute with drawing.",
  ["inputs", "histories"], "all 64-/256-bit seeds, all interleavings of operations",
  "Known-answer tests use a few seeds and straight-line draws.",
  [RN], [("mixing, stepping, splitting, jump polynomials", RN)], None, ["values drawn"])
p("C11", "Natural ordering of strings is a total order that reads digit runs as numbers",
  "Natural comparison is a total order on all strings: reflexive only on equal strings, antisymmetric and transitive, so sorting is deterministic. Strings are compared piece by piece, runs of ASCII digits by their numeric value however long they are (by text if the values are equal), and everything in between by text.",
  ["inputs"], "all pairs and triples of strings, including digit runs that exceed machine integers",
  "Order laws quantify over triples; the tests check some pairs.",
  ["lib/osi/src/str.rs"], [("cmp_natural", "lib/osi/src/str.rs")], None, ["Ordering returned"])
p("C12", "Turning text into identifiers always gives a valid identifier and keeps the rest",
  "For every text, symbolizing replaces each non-alphanumeric character by one underscore, keeps every other character in place, and puts an underscore in front if the result would be empty or start with a digit. The non-empty-string and platform-string conversion helpers keep content exactly and report emptiness or non-UTF-8 content instead of changing it.",
  ["inputs"], "all strings over all of Unicode, all byte strings",
  "Tests use a few ASCII words.",
  ["lib/osi/src/str.rs", "lib/osi/src/compat.rs"], [("symbolize, some", "lib/osi/src/str.rs"), ("OsStr helpers", "lib/osi/src/compat.rs")], None, ["returned strings"])
p("C13", "Tagged pointers keep address and tag bits independent through any updates",
  "A tagged pointer built from an aligned address holds that address and two tag bits; after any sequence of updates reading gives the last address set and the last value of each tag bit, and no update of one disturbs the other. Addresses that are not aligned enough are refused, and surplus tag bits given are ignored.",
  ["histories", "inputs"], "every aligned/unaligned address, every sequence of set operations with every argument",
  "Tests run one straight sequence of setters.",
  ["lib/osi/src/ptr.rs"], [("NonNull4 accessors", "lib/osi/src/ptr.rs")], [("address word with 2 low tag bits", "the packed representation", "lib/osi/src/ptr.rs")], ["ptr(), meta(), meta_bit(), get0/1"])
EN = "lib/osi/src/ffi/endian.rs"
p("C14", "Endian-tagged numbers store the right bytes and give back the same value",
  "For every supported number type and value, big-endian storage holds the bytes most significant first and little-endian storage least significant first; converting to native returns the original value, and raw access exposes exactly the stored bytes. Comparison, ordering, hashing, display and default follow the native value, not the stored bytes.",
  ["inputs"], "all values of all integer and non-zero types in both byte orders, plain and inside fixed-layout containers",
  "Tests check one value per type; order-sensitive errors need asymmetric values and pairs.",
  [EN, "lib/osi/src/ffi/abi.rs"], [("BigEndian, LittleEndian", EN)], None, ["stored bytes, to_native, cmp, Display"])
IN = "lib/osi/src/ffi/integer.rs"; PO = "lib/osi/src/ffi/pointer.rs"; PK = "lib/osi/src/ffi/packed.rs"
p("C15", "Foreign-ABI containers have the declared layout and behave as plain cells",
  "Packed values, aligned integers and typed pointers of each supported ABI have exactly the size and alignment that ABI prescribes, at every position in memory. Reading returns the last value written; replace and take return the previous one; each contained value is dropped exactly once; comparison, ordering, hashing and display follow the contained value; pointer conversions keep the address and refuse the null address.",
  ["histories", "inputs", "configurations"], "every ABI, type, value and sequence of cell operations; every address",
  "Tests check layouts of some types and single operations.",
  [PK, IN, PO, "lib/osi/src/ffi/abi.rs", "lib/osi/src/align.rs"], [("Packed", PK), ("Integer", IN), ("Pointer and NativeAddress", PO)], None, ["size, alignment, cell content, address"])
p("C16", "Raw memory helpers copy, swap and compare exactly the bytes concerned",
  "Byte-swapped copies hold the bytes of the source in reverse order for every size; size-changing copies keep the common prefix byte for byte; byte views show exactly the object's bytes and writes through them land in it; raw comparison is equality of the bytes. Field and container projection are inverse to each other and reach exactly the named member.",
  ["inputs", "configurations"], "every object size (odd ones included), content, alignment and field offset",
  "Tests use two or three sizes.",
  ["lib/osi/src/mem.rs", "lib/osi/src/meta.rs"], [("bswap_copy, transmute_copy_uninit, as_bytes, eq", "lib/osi/src/mem.rs"), ("field_of, container_of", "lib/osi/src/meta.rs")], None, ["bytes of the results"])
p("C17", "Ownership wrappers neither leak nor double-free and keep value and address",
  "Across any sequence of conversions between owned, borrowed, pinned, raw and maybe-owned forms, each value is dropped exactly once, borrowed values are never dropped, and content and address stay the same. Maybe-owned values compare, order, hash and print like what they refer to, and identity wrappers compare by address only.",
  ["histories"], "every sequence of conversions over every wrapper type",
  "Tests do single conversions and do not count drops across chains.",
  ["lib/osi/src/mown.rs", "lib/osi/src/convert.rs", "lib/osi/src/pin.rs", "lib/osi/src/cmp.rs", "lib/osi/src/error.rs", "lib/osi/src/ptr.rs"],
  [("Mown", "lib/osi/src/mown.rs"), ("IntoDeref/FromDeref", "lib/osi/src/convert.rs"), ("Identity", "lib/osi/src/cmp.rs"), ("OnceRef, Ptr", "lib/osi/src/ptr.rs")], None, ["drop counts, addresses, comparison results"])
SI = "lib/tmp/src/fmt/dbus/signature.rs"; EL = "lib/tmp/src/fmt/dbus/element.rs"
p("C18", "D-Bus signatures: exactly the single complete types are accepted",
  "A byte string is accepted as signature exactly if it is one single complete D-Bus type; anything else is refused with the error kind and position of its first defect. An accepted signature, of any length and made in any of the offered ways, has as many elements as the string has bytes, prints back as the same string, and equality and ordering agree with those of the strings. Every single element reports the code, pair, kind, alignment and size that the D-Bus type system gives it.",
  ["inputs"], "all byte strings of all lengths (short and long internal representations)",
  "Tests hold two fixed lists of strings, all shorter than the switch of representation.",
  [SI, EL], [("parser, two node widths", SI)], None, ["Sig::new/arc/make/parse result, len, Display, Ord"])
p("C19", "D-Bus signature cursors walk the type tree correctly from everywhere",
  "For every accepted signature and every sequence of cursor moves, next/previous visit neighbouring elements within bounds, down enters a container, up leaves to the container's opening element, step skips one complete type and stays put at the end of its container; impossible moves leave the cursor where it is. At every position the cursor reports the element, the complete type starting there, its length, its position inside the container and its alignment, also on types cut out of larger ones.",
  ["inputs", "histories"], "all signatures, all start positions, all sequences of moves, nested sub-signatures",
  "One test walks three fixed signatures.",
  [SI], [("Cursor::idx_*, move_*, sig, position, length", SI)], [("idx", "index into the signature", SI)], ["cursor queries"])
DV = "lib/tmp/src/fmt/dbus/dvar.rs"
p("C20", "D-Bus encoding writes exactly the wire format and refuses mismatching calls",
  "For every signature and every sequence of encoder calls, calls that fit the signature append exactly the D-Bus wire representation in the chosen byte order (alignment padding of zeros, lengths, terminators, array sizes), directly or through nested encoders. A call that does not fit, or whose bytes the buffer does not take, is refused with the documented error and changes nothing, so that correct calls can follow. Committing succeeds exactly when the signature has been completely served and then makes exactly the encoded bytes visible behind what the buffer already held.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all signatures, values, byte orders, call sequences (right and wrong), nesting of encoders, buffer contents and failures of the buffer, lasting or not",
  "Tests encode three fixed messages in little-endian with correct calls only.",
  [DV, "lib/tmp/src/io/map.rs"], [("Enc", DV), ("map::Write", "lib/tmp/src/io/map.rs")], [("level/stack/cursor", "position in data and signature", DV)], ["buffer content", "results"])
p("C21", "D-Bus decoding inverts encoding and withstands every input",
  "Decoding what was encoded for a signature returns the same values, in both byte orders, with element presence in arrays reported truthfully. For arbitrary bytes the decoder returns values consistent with the wire format or the documented error (exhausted data, bad text, mismatch), never panics, never reads outside the data, and uses memory only in proportion to the data present; a refused call leaves its position unchanged.",
  ["inputs", "histories", "fault_sequences"], "all data (valid, truncated, hostile lengths), all call sequences, both byte orders, all places where the data cannot be read for a while",
  "The decoder has no test at all.",
  [DV, "lib/tmp/src/io/map.rs"], [("Dec", DV), ("map::Read", "lib/tmp/src/io/map.rs")], None, ["values, results, allocation"])
TT = "lib/tmp/src/fmt/json/token.rs"
p("C22", "JSON stream tokenizer: exact tokens, errors and payloads for every byte stream",
  "For every byte stream, the pull-based JSON tokenizer yields a determined sequence of tokens and errors that partitions the stream: every byte belongs to exactly one token or error, in order. Numbers expose their source text and component texts, strings their source text and decoded text, with malformed escapes decoded to the replacement character and diagnosed; malformed items, signs and non-UTF-8 data give their specific error and tokenizing goes on behind it.",
  ["inputs"], "every byte string, valid UTF-8 or not",
  "Tests check fixed inputs; states of escapes, signs and components combine.",
  [TT], [("Dec::pop", TT)], [("state/idx/acc_str", "kind and extent of the open token, decoded text so far", TT)], ["Token values returned by pop()/complete()"])
p("C23", "JSON stream tokenizer: result independent of how bytes arrive; ends cleanly",
  "The tokens obtained do not depend on how many bytes are available at each call: when data is missing the tokenizer asks for more and later resumes without losing, repeating or altering anything. Ending the stream yields the token still open or its error, once, consumes what it covers, and then reports completion.",
  ["schedules", "histories", "inputs"], "every arrival pattern of every byte string, including one byte at a time, and every end position",
  "Tests deliver all data at once and never end the stream inside a token.",
  [TT, "lib/tmp/src/io/stream.rs"], [("resumable states, complete()", TT), ("map_while", "lib/tmp/src/io/stream.rs")], None, ["pop()/complete() results, bytes consumed"])
TS = "lib/tmp/src/fmt/json/stream.rs"
p("C24", "JSON structure decoder: well-nested items for every document, errors elsewhere",
  "For every token stream, the structural JSON decoder reports the values, keys and opened and closed containers of a well-formed document in document order, without any error, and opened and closed containers always nest properly. Every token that does not fit the grammar at its place is reported as one error, has no other effect, and decoding goes on.",
  ["inputs"], "every document and every malformed token sequence, any nesting depth, any arrival pattern",
  "The decoder has no test.",
  [TS], [("Dec::pop with container stack", TS)], [("state, stack", "place in the grammar, open containers", TS)], ["items returned"])
p("C25", "Stream and mapped buffers: nothing lost, repeated, moved or overwritten",
  "Reading through stream or map buffers returns the bytes of the source in order, asks for more exactly if too little is there, stating the total needed, and predicate scans stop at the first refused byte and resume without re-examining bytes. Writing places bytes exactly at the position given behind what was committed before, in arbitrary pieces and amounts (copy, iterator, fill, alignment), and committing makes exactly these bytes visible. Requests beyond what can be represented or is present are refused with the documented error, never with a crash.",
  ["histories", "inputs"], "all operation sequences, all buffer implementations that obey the interface (including chunked ones), all sizes",
  "One test writes 48 bytes into one vector.",
  ["lib/tmp/src/io/stream.rs", "lib/tmp/src/io/map.rs"], [("stream Read/Write, read_map_while", "lib/tmp/src/io/stream.rs"), ("map Read/Write, write_iter, fill, align", "lib/tmp/src/io/map.rs")], None, ["buffer content, results"])
p("C26", "DOS and PE headers: images round-trip, fields and checksums are exact",
  "Every header, extended header and relocation read from an image and written back is byte-identical, and each field appears at its documented offset in little-endian order. The checksum is the 16-bit wrapping sum of the little-endian words of the data (an odd last byte padded with zero), is additive over even splits, and the built-in stub images are valid. PE structures have the sizes, field offsets and constants of the published format.",
  ["inputs"], "all images, all data lengths and contents",
  "Tests check one stub and a few sizes.",
  ["lib/tmp/src/msdosmz.rs", "lib/tmp/src/pecoff.rs"], [("sum16, Header, HeaderExt, Relocation, STUB", "lib/tmp/src/msdosmz.rs"), ("structures and constants", "lib/tmp/src/pecoff.rs")], None, ["bytes, fields, checksum"])
p("C27", "System ABI definitions agree with the published ELF and Linux ABIs",
  "The ELF structures of both classes, and those offered for the platform's own class, have the sizes, alignments and field offsets of the ELF specification, so that reading a field from an image in the byte order of the machine gives the encoded number for every image. ELF constants, and the Linux error numbers under every name and on every target offered, have the published values and are distinct wherever the specification has them distinct.",
  ["inputs", "configurations"], "all images, both ELF classes, all constants, all offered targets",
  "Tests check some sizes; tables of several hundred constants and layouts per target are not compared with the specification.",
  ["lib/sys/src/ffi/elf.rs", "lib/sys/src/ffi/linux/mod.rs", "lib/sys/src/ffi/linux/common/errno.rs", "lib/sys/src/ffi/linux/libc/errno.rs"],
  [("ELF structures and constants", "lib/sys/src/ffi/elf.rs"), ("errno tables", "lib/sys/src/ffi/linux/common/errno.rs")], None, ["offsets, sizes, constants"])
p("C28", "Command line layouts list every command and flag in order, with their parents",
  "A layout assembled from any set of commands and flags, declared in any order, lists every command and every flag exactly once: commands in the order of a walk through the command tree, flags of a command sorted by name. The parent of a command is the nearest defined command whose path is a proper beginning of its own, or none. Positions are the same for all ways of access, and searching finds each entry at its position and tells for any other where it would have to be.",
  ["configurations"], "every set of distinct command paths and flag names, every order of declaration",
  "Tests use one or two layouts with few commands; which command is the parent of which depends on all paths at once, also where layers are missing.",
  [LA], [("sorting of sets and links to parents", LA)], None, ["iteration, positions, parents, search results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
