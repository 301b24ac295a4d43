#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
ALLSRC = ["src/packet.rs","src/byte_reader.rs","src/mqtt_writer.rs","src/connect.rs","src/connack.rs","src/publish.rs",
          "src/confirmation.rs","src/subscribe.rs","src/suback.rs","src/unsubscribe.rs","src/unsuback.rs","src/disconnect.rs",
          "src/auth.rs","src/structure/mod.rs","src/structure/common.rs","src/structure/properties.rs","src/structure/codes.rs"]
PKT = [f for f in ALLSRC if f not in ("src/byte_reader.rs","src/mqtt_writer.rs","src/packet.rs","src/structure/codes.rs","src/structure/common.rs")]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01","Encoding then decoding returns the same packet",
  "Encoding any packet whose contents are legal in MQTT 3.1, 3.1.1 or 5 succeeds at that version, and decoding the produced bytes at the same version yields an equal packet. The only differences allowed are these: data that does not exist in that version comes back absent, an empty property set or a user property without values comes back absent, an omitted will payload or an omitted v5 disconnect reason comes back as its explicit default, and the CONNACK is_default flag, which only records how a property set was built, comes back unset.",
  ["inputs","configurations"],
  "every packet type, every field value legal for the version, every combination of optional parts, every version in {3,4,5}; including messages near each length boundary of the remaining length and of 16-bit length prefixes. Excluded by documented policy of the library: a CONNECT with an empty client id and no clean session, and one with a password but no user name.",
  "The tests encode and decode a few hand-written packets each (most of the acknowledgement and CONNACK ones are only decoded); they never vary sizes, optional-field combinations or property subsets.",
  ALLSRC,[("per-packet encode/decode pairs","src/*.rs impl Packet"),("properties to and from code/value pairs","src/structure/properties.rs"),("length accounting before writing","src/*.rs encode")],
  ["Packet::encode / MqttPacket::encode result","PacketDecoder::decode_packet result"])

p("C02","Encoder emits exactly one well-formed frame, or an error",
  "For every packet value that can be built with the public types, legal or not, and every protocol version 3, 4 or 5, encoding either returns an error or returns exactly one complete frame that a strict MQTT reader accepts: correct type and reserved flag bits, a minimal remaining length equal to the number of bytes that follow, and all inner length prefixes and property blocks exactly delimiting their contents. A value that does not fit its field on the wire (over-long text or binary data, out-of-range QoS, an empty list where MQTT demands an entry, an over-long packet) yields an error and is never silently truncated, wrapped or dropped.",
  ["inputs","configurations"],
  "all values of all public packet structs (every public field set independently, including inconsistent and oversized ones), all versions in {3,4,5}",
  "Tests compare bytes for a few small legal packets; no test has a field longer than 125 bytes, a property set that is present but empty, an acknowledgement with a non-zero reason code, or an illegal field value except two.",
  ALLSRC,[("length accounting","src/*.rs encode"),("remaining length bound","src/mqtt_writer.rs write_variable_num"),("property block framing","src/structure/properties.rs encode_option, src/mqtt_writer.rs write_sized")],
  ["bytes returned by encode"])

p("C03","Encoder puts every field where MQTT says it belongs",
  "For every legal packet and version, an independent MQTT reader that shares no code with this library reads from the encoded bytes exactly the field values, flags, reason codes and properties the packet held, and nothing else. In particular v5 properties appear under their standard identifiers with their standard wire types, and at versions 3.1 and 3.1.1 no v5 element appears.",
  ["inputs","configurations"],
  "every packet type, every legal value, every subset of optional fields and properties, every version in {3,4,5}",
  "A round trip through the library hides symmetric mistakes (the same wrong bit or identifier on both sides); byte-exact tests exist for a handful of packets only.",
  ALLSRC,[("field order and flag composition","src/*.rs encode"),("property identifiers","src/structure/properties.rs to_pairs"),("fixed header byte","src/structure/common.rs FixedHeader::encode")],
  ["bytes returned by encode, read by an independent parser"])

p("C04","Decoder reads every legal frame, and reads it correctly",
  "Every frame that is legal in MQTT 3.1, 3.1.1 or 5, however a conforming peer chose to lay it out (any order of properties, any optional part present or absent, any short form the standard allows such as an acknowledgement, DISCONNECT or AUTH without reason code or property length), is decoded successfully. The resulting packet holds exactly the values on the wire, and each absent property holds the default the MQTT standard gives it.",
  ["inputs","configurations"],
  "all legal frames at versions {3,4,5}, produced by an independent writer: all property subsets and orders, all short forms, all payload sizes; the binary fields that the public types represent as text (will payload, password, authentication data) are covered here too",
  "Tests decode frames in the one order the author wrote down; absent properties, other orders, short forms, an empty payload after properties, and values at size boundaries are not covered.",
  ALLSRC,[("per-packet decode","src/*.rs decode"),("property list reader","src/byte_reader.rs read_properties"),("defaults","src/structure/properties.rs Default impls")],
  ["PacketDecoder::decode_packet result"])

p("C05","One decode call consumes exactly one frame, good or bad",
  "On any stream of frames whose remaining lengths are readable, each decode call consumes exactly the one frame at the front, whether it returns a packet or an error and wherever inside the frame the error was found. The outcome for each frame is the same as for that frame alone on a fresh stream, so a malformed frame or surplus bytes inside a frame never swallow, alter or delay any other packet, and the decoder reports more data exactly while bytes remain.",
  ["inputs","histories"],
  "all sequences (any length) of legal, malformed, truncated-inside, over-long and surplus-bytes frames of all types, at all versions, ending anywhere",
  "One test has a six-frame stream with a single kind of error (bad header flags); errors inside property blocks, surplus bytes, and property blocks that end with the frame are never followed by another frame.",
  ["src/packet.rs","src/byte_reader.rs"],[("limit per frame, discard on error","src/packet.rs decode_packet"),("nested read limits","src/byte_reader.rs take/reset_limit/consume"),("header errors","src/byte_reader.rs read_header")],
  ["sequence of decode_packet results","bytes still readable after each call"],
  [("curr_limit / read_limits","bytes left in the innermost and in the enclosing blocks","src/byte_reader.rs ByteReader")])

p("C06","An incomplete or failing stream never yields a packet",
  "If the stream ends or fails before the last byte of a frame has been delivered, decoding that frame returns an error: never a packet, a panic or an endless loop. (If a read fails only once and the stream then delivers the rest, the complete and correct packet is the only alternative to an error.) Packets that were complete before that point are still returned, and after the end of the stream the decoder reports that nothing more is available. The individual packet types, used directly, keep to the same rule for everything they read.",
  ["inputs","fault_sequences"],
  "every frame accepted by the decoder, every cut position in it, end-of-stream as well as every kind of read error, one-off or persistent, with any frames before it",
  "No test feeds a truncated frame or a failing reader.",
  ["src/byte_reader.rs","src/packet.rs"]+PKT,[("read_exact per field","src/byte_reader.rs read_len"),("list loops driven by has_more","src/subscribe.rs, src/suback.rs, src/unsubscribe.rs, src/unsuback.rs, src/byte_reader.rs read_properties"),("discard after decode","src/packet.rs decode_packet")],
  ["decode_packet result on a stream cut or failing at byte k"])

p("C07","Results do not depend on how the stream delivers bytes",
  "The sequence of packets and errors decoded from a byte stream depends only on its bytes: not on how reads are split or coalesced, on the buffer size used, or on interrupted reads that succeed when retried.",
  ["inputs","schedules","fault_sequences"],
  "all byte streams, all ways of splitting them into reads (down to one byte), all buffer capacities, all placements of interrupted reads",
  "All tests read from an in-memory cursor that delivers everything at once.",
  ["src/byte_reader.rs","src/packet.rs"],[("buffered exact reads","src/byte_reader.rs read_len"),("end-of-data probe","src/byte_reader.rs has_more")],
  ["sequence of decode_packet / has_more results over a scripted reader"])

p("C08","No input makes the codec panic, overflow or hang",
  "Decoding any byte sequence with any protocol version number, and encoding any packet value with any protocol version number, returns normally with a result or an error: no panic, no arithmetic overflow, no abort and no endless loop. Repeatedly decoding while data is reported finishes after at most one call per input byte.",
  ["inputs","histories"],
  "all byte streams, all version numbers 0..255 (also changing between calls), all packet values, all sequences of the public reader operations on all data",
  "The README lists fuzzing for unwanted panics as still to be done; tests only use well-formed or slightly wrong frames.",
  ALLSRC,[("checked reads","src/byte_reader.rs"),("Result everywhere","src/*.rs")],
  ["panics caught, aborts and hangs of the monitored process, number of decode calls"])

p("C09","Decoding memory is bounded by the bytes actually received",
  "While decoding, the memory the decoder holds is bounded by a small constant plus a constant multiple of the bytes the stream has actually delivered. Lengths merely declared by the peer (remaining length, property length, string length) never cause memory of that size to be allocated before the data has arrived.",
  ["inputs","histories"],
  "all byte streams, in particular short ones declaring remaining, property or string lengths up to the maximum; monitored bound: 1 MiB + 256 bytes per delivered byte",
  "No test observes allocation; a five-byte packet can declare 256 MiB.",
  ["src/byte_reader.rs","src/packet.rs","src/publish.rs"],[("buffer allocation in reads","src/byte_reader.rs read_len"),("discarding a malformed frame","src/byte_reader.rs consume, src/packet.rs decode_packet")],
  ["peak live heap and largest single allocation inside decode calls, bytes delivered by the reader"])

p("C10","Malformed frames are rejected",
  "A complete frame is answered with an error, never with a packet, if it has any of these defects: reserved type or wrong reserved header flags; QoS 3 in PUBLISH, a will or a subscription; a field, list entry or property running past its enclosing block or frame; a property length larger than the frame; a variable byte integer of more than four bytes; text that is not UTF-8; an unknown reason code or granted QoS; an unsupported protocol name or level; reserved CONNECT or CONNACK flags, or will QoS or retain without a will; reserved subscription option bits or retain handling 3; an empty list in SUBSCRIBE, SUBACK or UNSUBSCRIBE; a v3 UNSUBACK with a body other than its identifier; AUTH below version 5. (Property identifiers are covered by another property.)",
  ["inputs","configurations"],
  "all complete frames with at least one of the listed defects, in every packet type and field where it can occur, at versions {3,4,5}, alone or combined, within otherwise legal frames",
  "Tests show about twenty single bad frames; each defect can occur in many fields and packet types.",
  ALLSRC,[("header flag validation","src/structure/common.rs FixedHeader::from_byte"),("limits on reads","src/byte_reader.rs ensure_limit/start_properties_decode"),("code tables","src/structure/codes.rs"),("connect flags","src/connect.rs ConnectFlags::from_byte"),("subscription options","src/subscribe.rs decode")],
  ["decode_packet result"])

p("C11","Primitive wire types are written and read exactly",
  "Variable byte integers from 0 to 268435455 are written in the unique shortest form of one to four bytes and read back to the same value; larger numbers are refused when writing, and a sequence whose fourth byte announces a fifth is refused when reading. Two- and four-byte integers are big-endian; text and binary data carry a two-byte length equal to their size and read back unchanged, and anything longer than 65535 bytes is refused; each read consumes exactly the bytes of its item.",
  ["inputs"],
  "all 2^28 variable byte integers (all enumerated in the thorough tier), all u8/u16 values, u32 values, all strings and binary data up to and beyond 65535 bytes, all byte sequences read as variable byte integers",
  "Tests read five variable byte integers and one number of each width; writing primitives is only exercised indirectly.",
  ["src/byte_reader.rs","src/mqtt_writer.rs"],[("variable byte integer","src/byte_reader.rs read_variable_int, src/mqtt_writer.rs write_variable_num/encode_variable_num"),("length-prefixed data","src/byte_reader.rs read_utf8_string/read_binary, src/mqtt_writer.rs write_utf8_str/write_binary")],
  ["MqttWriter output bytes","ByteReader results and remaining bytes"])

p("C12","Codes, flags and enumerations map one-to-one to MQTT bytes",
  "For every packet type that carries a typed reason code, exactly the byte values MQTT 5 defines for it are accepted, each denotes the standard meaning of its name, and encoding writes back the same byte; all other values are refused. The same holds for granted QoS and subscription QoS values, for packet types and header flag bits of the first byte, for CONNECT flags and for protocol names.",
  ["inputs","configurations"],
  "all 256 byte values for each code, flag byte and first header byte; all enum values; through the conversion functions and inside real packets",
  "Tests touch a few codes per packet.",
  ["src/structure/codes.rs","src/structure/common.rs","src/connect.rs"]+["src/suback.rs","src/unsuback.rs","src/disconnect.rs","src/auth.rs","src/confirmation.rs"],
  [("from_byte/to_byte tables","src/structure/codes.rs"),("FixedHeader::from_byte/encode, PacketType::from_bits, QoS, Granted","src/structure/common.rs"),("ConnectFlags","src/connect.rs")],
  ["from_byte/to_byte results","decode and encode of packets carrying each code"])

p("C13","Each packet carries exactly the properties MQTT 5 allows it",
  "For each v5 packet type and for the will, decoding accepts a property if and only if MQTT 5 allows that property there, hands its value to the field of that meaning with the standard wire type, and refuses every other property identifier. Encoding only ever emits allowed properties, each single-valued one at most once, and emits every property that is set.",
  ["inputs","configurations"],
  "all 256 property identifiers times all 14 property-carrying places, alone and together with other properties in any order and position, with all values",
  "Tests use each packet's properties in one fixed combination; no test has a misplaced or unknown property.",
  ["src/structure/properties.rs","src/byte_reader.rs","src/mqtt_writer.rs"],[("per-packet match on identifiers","src/structure/properties.rs from_properties/to_pairs"),("wire type per identifier","src/byte_reader.rs decode_property")],
  ["decode_packet result for each (place, identifier)","property identifiers in encoded bytes"])

p("C14","Protocol versions do not leak into each other",
  "At versions 3 and 4 the encoded bytes do not depend on any v5-only content of the packet (properties, reason codes, subscription options) and are the same for both versions except for CONNECT; decoding at those versions never yields v5-only content. CONNECT is always written and read according to the version the packet itself names, whatever version the caller passes; AUTH is refused below version 5 in both directions.",
  ["inputs","configurations"],
  "all packets with any combination of v3 and v5 content, all versions in {3,4,5}, all caller-supplied versions 0..255 for CONNECT",
  "Tests use v3-only packets at v3 and v5-only packets at v5; mixed content is never encoded.",
  ALLSRC,[("version switches","src/*.rs encode/decode"),("properties only at 5","src/structure/properties.rs encode_option"),("CONNECT uses its own version","src/connect.rs, src/packet.rs decode_by_type")],
  ["encoded bytes at 3 and 4 for packets differing only in v5 content","decoded packets at 3 and 4"])

p("C15","Nested read limits never let a read escape its block",
  "Under any history of limit, unlimit, read, discard and more-data operations on the byte reader, a read returns the next bytes of the stream if and only if the stream has them and they lie within all limits in force. Otherwise it fails: a plain read that a limit forbids consumes nothing, a composite one (length-prefixed or variable-length item) at most the leading parts that the limit allows. Removing a limit restores exactly what was left of the enclosing one minus the bytes read meanwhile, also when the inner limit reached the end of the outer one; more data is reported exactly when the current limit and the stream both have bytes left; discarding skips exactly to the end of the current limit. After a read that a failure of the stream broke off, every block still ends where it ends. Whole packets and property blocks are read inside a limit exactly as without one, and are refused if they do not end within it.",
  ["histories","inputs"],
  "all operation sequences over all stream contents and lengths, nesting to any depth, including zero-length, equal and too large limits",
  "Four tests run one short fixed sequence each; none nests a limit as large as the enclosing one.",
  ["src/byte_reader.rs"],[("take / reset_limit / limit / ensure_limit / consume / has_more","src/byte_reader.rs")],
  ["result of each public ByteReader operation"],
  [("curr_limit / read_limits","stack of enclosing limits","src/byte_reader.rs ByteReader")])

p("C16","Repeated elements are conserved, in order, in both directions",
  "Every user property, subscription identifier, topic filter and per-topic code of a packet appears exactly once in the encoded bytes and exactly once in the decoded packet: none lost, duplicated, merged or moved to another key. Lists keep their order, and user property values with the same key keep their relative order.",
  ["inputs"],
  "packets with any number of repeated elements (zero to many thousands), duplicate keys and values, empty keys and values, interleaved with other properties in any order, every packet type that carries them",
  "Tests use at most three equal user properties and four list entries.",
  ["src/byte_reader.rs","src/mqtt_writer.rs","src/structure/properties.rs","src/subscribe.rs","src/suback.rs","src/unsubscribe.rs","src/unsuback.rs"],[("user property grouping","src/byte_reader.rs read_properties"),("map expansion","src/mqtt_writer.rs write_properties"),("list loops","src/subscribe.rs, src/suback.rs, src/unsubscribe.rs, src/unsuback.rs")],
  ["elements with unique ids counted on both sides"])

p("C17","Forwarding a decoded packet loses nothing",
  "Re-encoding any packet obtained from the decoder, at the version it was decoded with, either is refused with an error or produces bytes that decode to an equal packet (a subscription identifier 0 in a SUBSCRIBE, which MQTT forbids, may come back as absent); for a packet decoded from a legal frame it is not refused. (The two documented encoder restrictions on CONNECT, an empty client id without clean session and a password without a user name, may be refused.)",
  ["inputs","configurations"],
  "all byte sequences the decoder accepts, including lenient and unusual ones, at versions {3,4,5}",
  "Tests start from hand-written packets; packets whose content comes from an arbitrary peer are not re-encoded.",
  ALLSRC,[("encode/decode pairs","src/*.rs"),("properties conversion","src/structure/properties.rs")],
  ["decode, encode, decode of arbitrary accepted frames"])

p("C18","Serialising packets with serde loses nothing",
  "With the serde feature enabled, serialising any packet value and deserialising it again yields an equal packet, in self-describing and in positional formats, and the restored packet encodes and behaves like the original.",
  ["inputs","configurations"],
  "all packet values of all types, feature serde_support on, a self-describing text format and a compact binary format",
  "No test enables the feature.",
  ["src/structure/mod.rs","src/structure/common.rs","src/structure/properties.rs","src/structure/codes.rs","src/packet.rs","src/connect.rs"],[("derived Serialize/Deserialize","cfg_attr on all public types")],
  ["value before and after serialisation"])

p("C19","Decoders and encoders do not influence each other",
  "What a decoder or an encode call returns depends only on its own stream or packet and version: not on other decoders or encode calls running before it, interleaved with it or concurrently on other threads, and not on earlier packets of the same stream. Decoders and packets can be handed to another thread between calls, with no effect on results. Encoding does not modify the packet, and repeating it gives the same frame up to the order of user properties with different keys.",
  ["schedules","histories","inputs"],
  "any number of decoders and encoders, any interleaving on one thread and across threads, any history before",
  "Tests use one decoder at a time with fresh state for each packet.",
  ["src/packet.rs","src/byte_reader.rs","src/mqtt_writer.rs"]+PKT,[("state only in the decoder value","src/byte_reader.rs ByteReader"),("encode takes &self","src/structure/mod.rs Packet")],
  ["results of interleaved and concurrent runs compared with solo runs; data races reported by the interpreter"])

p("C20","All entry points agree and constructors build what they name",
  "Encoding through the packet enum and through the individual packet type gives the same result, as does decoding through the decoder (built from a stream, from a buffered reader or from a byte reader) and through the individual packet type after reading the header. The convenience constructors build exactly the packet their name states: the right kind, version-appropriate codes, and the given identifier, code, properties and lists; and their encoded frame carries that packet type.",
  ["inputs","configurations"],
  "all packet values and versions; all arguments of all public constructors and default values",
  "Doc tests show one value for five constructors; the v5 ones are used once and the two encoding paths are never compared.",
  ["src/packet.rs","src/confirmation.rs","src/suback.rs","src/structure/mod.rs","src/structure/properties.rs"],[("dispatch","src/packet.rs encode/decode_by_type"),("constructors","src/confirmation.rs, src/suback.rs"),("PingreqPacket/PingrespPacket","src/structure/mod.rs")],
  ["results of both entry points; fields of constructed packets"])

p("C21","No memory error or undefined behaviour on any input",
  "No sequence of calls through the safe public API, on any bytes, packets, limits or reader behaviour (including readers that return fewer bytes than asked, errors, or fail midway), causes an invalid memory access, a read of uninitialised memory, a leak that grows with the number of packets, a data race or other undefined behaviour, and every text it returns is valid UTF-8.",
  ["inputs","fault_sequences","schedules"],
  "all byte streams, packet values, reader behaviours and interleavings of independent users",
  "Tests run uninstrumented on well-behaved in-memory input.",
  ALLSRC,[("safe Rust only, checked reads into owned buffers","src/byte_reader.rs read_len"),("UTF-8 validation","src/byte_reader.rs read_utf8_string")],
  ["reports of the sanitizer and of the undefined-behaviour interpreter; live heap after each packet; UTF-8 check of all returned text"])

p("C22","A complete frame is answered without waiting for more input",
  "Once the stream has delivered the last byte of a frame, decoding it returns its packet or its error without asking the stream for anything more; a length field longer than four bytes is refused without waiting beyond the bytes that show it. Asking whether there is more data needs one byte at most, and none if some are at hand or the limit in force is used up. The individual packet types and the reader's own operations never wait for bytes they do not need, nor for bytes that a limit forbids them to read.",
  ["inputs","schedules","histories"],
  "all frames good or bad at all versions, all ways in which a peer can send them and then stay silent, all buffer capacities, all histories of reader operations",
  "Every test reads from memory, where asking for more than needed is invisible; on a socket it blocks until the peer sends again, and request and answer deadlock.",
  ["src/byte_reader.rs","src/packet.rs","src/subscribe.rs","src/suback.rs","src/unsubscribe.rs","src/unsuback.rs","src/connack.rs"],[("exact reads","src/byte_reader.rs read_len"),("end of lists","src/byte_reader.rs has_left, has_more"),("discard","src/packet.rs decode_packet, src/byte_reader.rs finish_packet, consume")],
  ["reads issued on the stream during each call, against the end of the frame or of the bytes the operation needs"])

p("C23","Work grows in proportion to the input",
  "The time and the total memory traffic of decoding a stream grow at most about linearly with its length, and those of encoding a packet with the length of its frame: no number, order or kind of elements, errors, nested limits or small reads makes them grow quadratically.",
  ["inputs","histories"],
  "all streams and packets, with any number of frames, properties, list entries, limits and reads",
  "Tests use inputs of a few dozen bytes, where quadratic work does not show.",
  ALLSRC,[("appending reads","src/byte_reader.rs read_len, read_properties"),("property conversion","src/structure/properties.rs"),("list loops","src/subscribe.rs, src/suback.rs, src/unsubscribe.rs, src/unsuback.rs"),("writer","src/mqtt_writer.rs")],
  ["processor time of the calling thread and bytes requested from the allocator at sizes n and many times n"])

p("C24","Packet comparison and cloning tell the truth",
  "Two packets (or headers, property sets, codes, or other public values) compare equal exactly if all their contents are equal: same kind, same fields, lists and values in the same order; only the order of user property keys is of no account. Comparison is symmetric. A clone is equal to the original, is independent of it, and encodes to the same frame.",
  ["inputs"],
  "all pairs of packet values, in particular those that differ in exactly one field, element, character or optional part; all packet values cloned",
  "Every test trusts == to compare results, and nothing tests ==: a comparison that ignores a field makes the other tests pass for any value of it.",
  ["src/structure/mod.rs","src/structure/common.rs","src/structure/properties.rs","src/structure/codes.rs","src/packet.rs","src/connect.rs"],[("derived PartialEq/Clone","all public types")],
  ["result of == in both directions against a field-by-field comparison of contents; encoded frames of clones"])

p("C25","The codec touches nothing but its arguments",
  "Whatever its input, decoding reads only from the stream it was given and encoding only from the packet; neither writes to standard output or error, opens files or connections, starts threads or processes, sleeps, ends the process, reads the clock or environment variables, nor changes the environment or the panic hook of the process.",
  ["inputs","fault_sequences","histories"],
  "all byte streams, stream faults, packets, versions, limits and reader operations",
  "Tests look only at returned values; a stray diagnostic, file access or wait on a rare path is invisible to them.",
  ALLSRC,[("pure codec: only the Read argument and the heap","src/byte_reader.rs, src/packet.rs, src/mqtt_writer.rs")],
  ["system calls issued by the calling thread while a codec call runs (memory management excepted); calls of the C library's clock and environment functions from there; environment variables before and after"])

p("C26","Results do not depend on build configuration or platform",
  "Decoding, encoding, reader and writer operations, code tables, comparison and cloning give the same results for the same input whatever the optimisation level, debug assertions and overflow checks, crate features, compiler version, word size, byte order and operating system; in particular a release build never panics, hangs, accepts or writes what a development build does not.",
  ["inputs","histories","configurations"],
  "all streams, deliveries, packets, versions, reader and writer operations, on every build configuration and target",
  "Tests run in one configuration (development build, 64 bit, little endian, Linux, default features); users ship another.",
  ALLSRC+["Cargo.toml"],[("byte order and integer widths","src/byte_reader.rs, src/mqtt_writer.rs"),("debug assertions, overflow checks, cfg and features","all modules")],
  ["result of every case (packets field by field, frames, positions, operation results, panics, endless runs) in each configuration against the reference configuration"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
