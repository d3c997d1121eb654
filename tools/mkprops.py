#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files[:3])} for m in mech]}
    a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Parsing is total: any bytes give a replay or an error, never a crash",
  "For every byte string and every combination of CRC and network options, parsing terminates and returns either a replay or an error value. It never panics, aborts, exhausts the stack or hangs. Any error it returns can be displayed and its source chain walked just as safely.",
  ["inputs", "configurations"], "all byte strings (valid, truncated, mutated, adversarial) x all crc and network policies",
  "The suite parses about 150 well formed replays and a handful of bad files; hostile sizes, nesting, indices and truncation points are unbounded.",
  ["src/parser.rs", "src/header.rs", "src/core_parser.rs", "src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/network/models.rs", "src/errors.rs"],
  ["every read is bounds checked and returns an error value", "header property nesting is capped", "bit reader lookahead checks precede unchecked peeks"])
p("C02", "CRC policy decides exactly which corruption is reported and how",
  "When the checksum is always checked, a section whose stored checksum differs from its declared bytes is reported as a mismatch carrying stored and computed values, even if it also fails to parse; otherwise the parse result stands. When it is checked only on error (the default), a successful parse is returned whatever the checksum, and a failed section is reported as corrupt (naming header or body and keeping the cause) exactly when the checksum is wrong. When it is never checked, the stored checksum has no influence on the outcome.",
  ["inputs", "configurations"], "all replays x {good, bad} header/body checksum x {parses, fails} per section x crc policy, and any order of builder calls",
  "Tests cover a few fixed corrupt files under one policy each; the policy x section x outcome product, and checksum coverage of the declared section bytes only, is not enumerated.",
  ["src/parser.rs", "src/crc.rs"], ["one section wrapper applies the policy to the parse result of header and body"])
p("C03", "The checksum equals the Rocket League CRC-32 for every byte string",
  "The public checksum function computes, for every byte string of every length, the non-reflected CRC-32 with polynomial 0x04c11db7, the game's fixed start value and final inversion. The result depends only on the bytes, not on how they are split, aligned or sized.",
  ["inputs"], "all byte strings of all lengths (block-sized body and every remainder length) at every alignment",
  "Tests check a couple of constants; the table driven fast path has 16 tables of 256 entries plus a remainder path, of which samples reach a fraction.",
  ["src/crc.rs"], ["slice-by-16 main loop with a byte-wise remainder loop"])
p("C04", "Network policy and builder options control only what they name",
  "Requesting network data returns the frames or the network error; ignoring network errors returns the frames when they decode and otherwise the same replay without frames; skipping returns no frames and never fails because of network data. Header and body content are identical under every network and checksum option that succeeds, the last setting given to the builder wins, and the defaults are ignore-on-error and check-on-error.",
  ["inputs", "configurations"], "all replays (valid or defective network data) x all builder call sequences",
  "The suite uses must-parse on good replays and a few others; the cross product of policies, defects and call orders is not tested.",
  ["src/parser.rs"], ["network parse runs after header and body are complete and its result is mapped by policy"])
p("C05", "Header properties are reproduced exactly, in order, for every header",
  "The versions, game type and property list returned equal what the header bytes encode: the network version is present exactly for major above 865 with minor above 17, properties keep order, duplicates, nesting, types and exact values, and unknown property types are errors. Declared property sizes are ignored, and byte properties without a kind are skipped. The version 0.0 legacy encoding of booleans and bytes is honoured.",
  ["inputs"], "all headers: any version triple, any nesting of the nine property types, any values, either encoding mode",
  "Unit tests decode one property of each kind and real files; arbitrary nesting, duplicates, odd values, legacy mode and ignored sizes are unbounded.",
  ["src/header.rs", "src/models.rs", "src/core_parser.rs"], ["recursive property list decoder"])
p("C06", "Body and footer lists are reproduced exactly and in order",
  "Levels, keyframes, debug info, tick marks, packages, objects, names, class indices and the network cache returned equal the sequences encoded in the body, element by element with exact values and order. The stored sizes and checksums of header and body are returned as encoded. The network data block is exactly the declared number of bytes and does not disturb the sections after it, whose decoding may consume bytes only up to the end of the file.",
  ["inputs"], "all bodies with any list lengths and any element values",
  "Real replays have empty debug info, few packages and plain values; tests hash their JSON as a whole but do not vary lengths or corner values.",
  ["src/parser.rs", "src/core_parser.rs", "src/models.rs"], ["fixed section order, counted lists"])
p("C07", "Text decodes by the sign of its length: windows-1252 or UTF-16, both exact",
  "Positive lengths decode that many windows-1252 bytes and negative lengths twice as many UTF-16LE bytes, dropping the final terminator unit and nothing else; embedded terminators survive and unpaired surrogates become replacement characters. Property keys and types are UTF-8 and reject invalid sequences. The same rules hold in header, body and network text, except that network text may have length zero.",
  ["inputs"], "all lengths (negative, zero, positive, extreme), all 256 windows-1252 bytes, all UTF-16 code unit sequences, all UTF-8 byte sequences, any bit offset",
  "Tests decode three or four fixed strings; the 0x80-0x9f table, surrogates, terminators, zero lengths and unaligned network strings are sampled at best.",
  ["src/parsing_utils.rs", "src/core_parser.rs", "src/network/attributes.rs"], ["encoding_rs decoders over slices with the terminator removed"])
p("C08", "Untrusted sizes are bounded and never drive outsized allocation",
  "Lists over 25000 entries or with negative counts, text longer than 10000 units, network text over 1024 bytes, header structures nested too deeply and frame counts larger than the network data are rejected as errors, while values at the limits are accepted. A size field that exceeds the available data is an error stating wanted and available sizes. Memory used while parsing stays bounded by the input length plus a constant, whatever the size fields claim.",
  ["inputs"], "all values of every size, count and length field, at, around and far beyond each limit",
  "Tests assert two or three oversized values; limits exist at a dozen places and the boundary on both sides, negatives and wrap-around are not tested, nor is allocation.",
  ["src/core_parser.rs", "src/header.rs", "src/parser.rs", "src/network/mod.rs", "src/network/attributes.rs"], ["size checks ahead of allocation and slicing"])
p("C09", "Actor updates always refer to a spawned actor and use its latest class",
  "In every decoded frame stream an attribute update names an actor that was spawned earlier in the stream, and is interpreted using the class of the most recent spawn of that actor id; an update for an id never spawned is an error. Spawns, deletions and updates are reported per frame, each in stream order with exact ids. Deletion and respawn with reused ids work for every id the channel limit allows.",
  ["histories", "inputs"], "all interleavings of spawn, respawn, update and delete over any actor ids and classes, within and across frames",
  "Real replays contain only sane lifecycles; unit tests do not drive the lifecycle at all. Id reuse with a different class, ids beyond the dense range and never-spawned ids need generated histories.",
  ["src/network/frame_decoder.rs"], ["actor table keyed by actor id, dense for small ids and hashed beyond"],
  state=[{"name": "actors", "meaning": "actor id to class and its attribute table", "where": "src/network/frame_decoder.rs"}])
p("C10", "Stream ids resolve through class inheritance with the right bit width",
  "A class offers the attributes of its own network cache entries plus those of every ancestor in the known class hierarchy, an entry of a descendant overriding an inherited one with the same stream id. Stream ids are read with the width implied by the largest id available to the class. Duplicate object names resolve to the first, instance names resolve to their class, and ids with no known attribute are errors.",
  ["inputs"], "all object lists, class hierarchies (including missing ancestors, duplicates, instance names) and cache tables",
  "Real replays carry regular caches listed parents first; overrides, merged duplicates, missing ancestors, order independence and boundary widths are never tested.",
  ["src/network/mod.rs", "src/network/object_index.rs", "src/network/models.rs", "src/data.rs"], ["ancestor walk with memoised attribute tables", "max-bounded bit width"])
p("C11", "New actors carry exactly the spawn data their class and version define",
  "A spawned actor's location and rotation are present exactly as its nearest known ancestor class defines, the name id exactly for versions at or after 868.20, or 868.14 when the match is not a LAN match, and all values equal the encoded ones. An object id outside the object list, or a class without network attributes, is an error.",
  ["inputs", "configurations"], "all classes and instance names x versions x LAN flag x component presence",
  "Which component is read decides every later bit; tests have only the combinations that appear in the sample replays.",
  ["src/network/frame_decoder.rs", "src/network/models.rs", "src/network/mod.rs", "src/data.rs"], ["spawn kind inherited through the class hierarchy", "version gates on the name id"])
p("C12", "Bit-level values decode identically at every offset and near the end",
  "Vectors, rotations, quaternions, bounded integers and fixed width integers and floats decode to the value their bits define, independent of bit offset in the stream and of how many bytes follow. A value is rejected exactly when the remaining data cannot hold it.",
  ["inputs"], "all values of each primitive x bit offsets 0..7 x number of trailing bytes 0..24 x network versions",
  "Two unit tests decode one vector and one rotation; separate fast and end-of-data code paths must agree on every input.",
  ["src/network/models.rs", "src/bits.rs", "src/network/attributes.rs"], ["lookahead fast path when enough bytes remain, careful path otherwise"])
p("C13", "Every attribute type is decoded field by field per the replay version",
  "Each attribute type consumes exactly the fields its layout defines for the replay's versions and build, in order and with exact values, and leaves the stream positioned for whatever follows. Optional and version dependent parts are present exactly when their condition holds.",
  ["inputs", "configurations"], "all ~43 attribute types x all version/build gates x all discriminant values x all field values",
  "Snapshot hashes cover only values and versions in the sample replays; rare types, old versions and boundary discriminants are missing.",
  ["src/network/attributes.rs"], ["one decode function per attribute type with version comparisons"])
p("C14", "Known attribute and class names keep their meaning",
  "Every attribute name and class name the library knows decodes with its established attribute type, parent class and spawn data. Names it does not know yield a missing-attribute or missing-class error that identifies them rather than a misread stream.",
  ["inputs"], "every name in the attribute, class and spawn tables, and names outside them",
  "The tables have well over a thousand entries; the sample replays exercise a fraction and a wrong entry for an unexercised name passes every test.",
  ["src/data.rs", "src/network/mod.rs"], ["static maps from names to attribute type, parent class and spawn kind"])
p("C15", "Frames: at most the announced number, all complete, with valid times",
  "The frame list holds the frames encoded in the network data in order, at most the number announced in the header, ending early only at the end of the data or at an all-zero time and delta. Each frame's time and delta equal the encoded values, and a time or delta that is negative or a tiny positive value is an error. Without an announced count there are no frames; data after the last frame is ignored.",
  ["inputs"], "all frame counts versus announced counts, all 2^32 time/delta bit patterns, any trailing data",
  "Tests see only matching counts and plausible times; boundary values (zero, negative zero, infinities, NaN, subnormals, 1e-10) and early ends are untested.",
  ["src/network/frame_decoder.rs", "src/network/mod.rs", "src/header.rs"], ["frame loop guarded by count and remaining bits", "range checks on time and delta"])
p("C16", "Truncation is all or nothing",
  "Cutting a replay anywhere yields an error, or (where network errors are ignored) the replay without frames; a result never contains invented or partially read data. Frames returned from network data cut at any point are a prefix of the full frame list, and only when the cut falls where a frame may end.",
  ["inputs", "crash_points"], "every prefix of every replay, and every cut of the network data",
  "The suite truncates a few fixtures at fixed places; each byte position inside every construct is a distinct case.",
  ["src/core_parser.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/network/models.rs"], ["explicit remaining-length checks on every read"])
p("C17", "Errors identify the section, offset, actor and attribute that failed",
  "A parse error names the section and byte offset reached and carries the failing cause with exact operands; a network error names the failing component, actor, class and stream involved. The rendered message includes those operands, the number of frames decoded so far and the most recent actor activity. Source chains lead to the innermost cause.",
  ["inputs"], "every failing construct at every position",
  "Tests compare a few messages; each of the dozens of failure sites has its own label and operands.",
  ["src/errors.rs", "src/parser.rs", "src/core_parser.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs"], ["errors wrapped per section and per frame with a context snapshot"])
p("C18", "JSON output mirrors the replay without loss of order, duplicates or 64-bit ints",
  "Serializing a replay emits every field once under its established name in order, header property lists as objects keeping duplicate keys and order, 64-bit integers as decimal strings, absent options as null and enumerated attributes tagged with their type. Values equal those of the in-memory replay.",
  ["inputs"], "all replays: every property type and nesting, every attribute type, extreme values",
  "Snapshots hash output for sample replays only; rare variants, duplicates, extreme 64-bit values and nested structures are not in them.",
  ["src/models.rs", "src/serde_utils.rs", "src/network/attributes.rs", "src/network/models.rs"], ["custom serializers for header properties and 64-bit values, derived ones elsewhere"])
p("C19", "Decoded frames survive a serialization round trip unchanged",
  "For every decoded frame with finite floats, serializing it and deserializing the result gives an equal frame, for every attribute type and version variant. This holds for self-describing and for positional formats alike.",
  ["inputs"], "all decodable frames over all attribute types and value extremes x serialization formats",
  "Tests round trip a sample; rare attribute variants, extreme integers and options are not covered.",
  ["src/network/models.rs", "src/network/attributes.rs", "src/serde_utils.rs"], ["derived deserializers with string parsing for 64-bit values"])
p("C20", "Parsing is a pure function of the bytes and options",
  "Parsing the same bytes with the same options always yields the same result, whatever was parsed before, from whichever thread, at whatever memory alignment, in parallel or not. The header and body results do not depend on the network data contents.",
  ["inputs", "histories", "schedules"], "all inputs x repetition, interleaving, threads and buffer placement; hash seeds and iteration order",
  "Tests parse each file once; hash-map iteration order, buffer reuse between attributes and leftover state are only visible across histories.",
  ["src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/parser.rs"], ["no global mutable state", "scratch buffers are overwritten before use"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
