#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


ENC = ["encode.go", "options.go", "sms.go"]
TP = "encoding/tpdu/"

prop("P01", "Messages survive encoding, transport, reassembly and decoding",
     "Any text encoded into TPDUs, marshalled to octets (bare, or as PDU mode octets or hex), unmarshalled, reassembled in any order of arrival interleaved with other messages, and decoded, is the text that was encoded. The reassembled set is recognised as complete, and a message of any length which can be numbered in 255 segments is encodable while a longer one is refused with an error.",
     ["inputs", "histories", "configurations"],
     "all texts (every alphabet, language table, length), all encoder options whose TPDUs can be marshalled, all arrival orders and interleavings of several messages",
     "the tests compare a handful of fixed messages with fixed TPDUs, stage by stage; none composes the stages, interleaves messages or visits more than a few lengths",
     ENC + ["collect.go", TP + "tpdu.go", TP + "userdata.go", "encoding/pdumode/pdu.go", "encoding/ucs2/ucs2.go", "encoding/gsm7/gsm7.go"],
     [("text to user data", "encode.go Encoder.Encode"), ("segmentation", TP + "tpdu.go Segment"), ("reassembly", "collect.go Collect"), ("decode of segments", "sms.go Decode")],
     "runtime monitoring: end-to-end oracle over generated messages and arrival histories",
     "Monitored execution of the composed pipeline on generated messages, options and arrival orders; a text, order or option combination not generated is not covered.")

prop("P02", "Segmentation loses nothing, splits no character and wastes no segment",
     "The user data of the segments of a message, in order, is exactly the user data of the message; each segment fits the space its TPDU type, alphabet and headers leave, each but the last is filled as far as whole characters allow, and no escape sequence or surrogate pair is divided between segments. A message that fits in one TPDU is one TPDU without a concatenation header, otherwise every segment carries consistent concatenation information numbered from 1.",
     ["inputs", "configurations"],
     "all messages, alphabets, TPDU types, template headers and reference widths which leave room for at least one character",
     "tests pin a dozen boundaries of SUBMIT and DELIVER; the boundaries move with type, alphabet, header length and escapes, which multiply far beyond that",
     [TP + "tpdu.go", TP + "userdata.go", "encode.go"],
     [("block size", TP + "tpdu.go UDBlockSize, MaxUDL"), ("chunking", TP + "tpdu.go chunk7Bit, chunk8Bit, chunkUCS2"), ("concatenation header", TP + "tpdu.go Segment")],
     "runtime monitoring: segmentation outputs checked against an independent divider",
     "Monitored execution against an independent model of the capacity of each TPDU; malformed UTF-16 is only held to conservation and size. Templates leaving room for fewer than five octets are out of scope.")

prop("P03", "Encoding preserves everything the template and options specify",
     "Every TPDU of an encoded message carries the type, addresses, flags, protocol, coding group and class bits, validity period, timestamps and header elements given by the template and options, the later of conflicting options prevailing, altered only as needed to carry the message: alphabet, message reference, language and concatenation elements. Options given to one call do not affect any other call.",
     ["inputs", "configurations", "histories"],
     "all templates and sequences of options, to constructor and call, with all messages, over repeated use of an encoder",
     "tests apply each option alone to one short message; interactions of option order, template contents, language elements and several messages per encoder are not visited",
     ENC + [TP + "tpdu.go", TP + "options.go"],
     [("template copy and option application", "encode.go Encode"), ("template replication", TP + "tpdu.go Segment")],
     "runtime monitoring: field-by-field comparison with a model of options",
     "Monitored execution against a model of option application; templates that themselves carry concatenation or language elements, or a UDHI flag inconsistent with their header, are out of scope.")

prop("P04", "Message references and concatenation references are sequential and unique",
     "Successive messages of an encoder take successive concatenation references and successive segments successive message references, wrapping only with the width of the field; all segments of a message share one concatenation reference. Sharing an encoder or counter between threads neither repeats nor skips a number, and counters supplied by the caller are used in place of the default.",
     ["histories", "schedules", "configurations"],
     "all sequences of messages through an encoder, with any counters and starting points, and all interleavings of concurrent calls",
     "tests check the first numbers of single threaded use; wrap, interleaved single and multi part messages, and concurrent use are not visited",
     ["encode.go", "options.go", TP + "tpdu.go", TP + "options.go"],
     [("counters", "encode.go Counter"), ("assignment", TP + "tpdu.go Segment")],
     "runtime monitoring with the race detector: conservation checker over recorded number assignments",
     "Schedules are those produced by contending goroutines, plain and under the race detector; counters consumed by calls which fail are not judged.")

prop("P05", "Concurrent use is race free and gives the results of sequential use",
     "Encoders, options, templates, segments and the package's own tables may be used by any number of threads at once, including for the first time, without data races and with each call returning just what it would alone. Options passed to one call never leak into a concurrent one.",
     ["schedules", "histories"],
     "all interleavings of encoding, decoding, marshalling and table use by concurrent threads, from process start",
     "no test uses more than one goroutine, and the suite is not run under the race detector",
     ["encode.go", "sms.go", "encoding/gsm7/charset/charset.go", "encoding/gsm7/gsm7.go", TP + "tpdu.go", TP + "userdata.go"],
     [("lazily built tables", "encoding/gsm7/charset/charset.go"), ("per call copy of the encoder", "encode.go Encode"), ("template is not written", TP + "tpdu.go Segment")],
     "race detector, with concurrent results compared to sequential ones",
     "Happens-before race detection over the executed schedules in several fresh processes, so that first use is raced each time; unexecuted paths are not covered.")

prop("P06", "Reassembly conserves segments, in order, and never mixes messages",
     "A collector returns a message exactly once, on receipt of the last of its segments, as all of its segments unaltered and in order, whatever the order of arrival and whatever else is being collected. Messages differing in type, originator or destination address, reference or number of segments are never mixed, and a TPDU which is not one of several segments is returned at once.",
     ["histories", "schedules", "inputs"],
     "all sequences and concurrent interleavings of segments of any set of messages, to 255 segments each",
     "tests feed two or three segments of one message in a couple of orders from one goroutine",
     ["collect.go", TP + "tpdu.go"],
     [("reassembly key", "collect.go pduKey"), ("pipes under a lock", "collect.go Collect")],
     "runtime monitoring: model comparison, and linearizability checking of concurrent histories with the race detector",
     "Sequential histories compared step by step with a model; short concurrent histories checked for linearizability with porcupine, long ones for conservation. 8 and 16 bit references of equal value are not distinguished by design and not generated.",
     state=[dict(name="pipes", meaning="segments held per message", where="collect.go Collector.pipes")])

prop("P07", "Rejected segments are reported and change nothing",
     "A segment which repeats one already held, is numbered outside its message, belongs to a type which cannot be reassembled, or arrives after the collector is closed, is refused with the corresponding error and returns no segments. The segments already held, their eventual completion and their time of expiry are as though it had never arrived.",
     ["histories", "inputs", "schedules"],
     "all histories containing rejected segments at any point, and all (segments, sequence number) pairs",
     "tests check the error of one example of each; the state after a rejection is not examined",
     ["collect.go", "error.go"],
     [("validation before any change", "collect.go Collect")],
     "runtime monitoring: model comparison around every rejection, in virtual time",
     "Every pair of segment count and number is enumerated; histories are sampled. Expiry is compared exactly in virtual time (testing/synctest).")

prop("P08", "Incomplete messages expire once, on time, and complete ones never",
     "With a timeout set, a message not complete within the timeout of its latest accepted segment is removed and passed to the handler exactly once, with each held segment in its place and gaps for those missing; without a handler it is discarded. A completed message or one in a closed collector never expires, and every accepted segment leaves the collector exactly once, even when segments arrive as the timeout fires.",
     ["histories", "schedules"],
     "all histories of segments and intervals about the timeout, and all races of arrival with expiry",
     "tests use one real time sleep with one message; the race of arrival with expiry needs a schedule tests do not arrange",
     ["collect.go"],
     [("timer restart and identity check", "collect.go Collect")],
     "runtime monitoring: exact expiry log in virtual time, and conservation accounting under real-time contention with the race detector",
     "Virtual time histories are compared exactly; the window between a timer firing and its cleanup is opened deliberately by holding the collector's lock, and otherwise reached by stress.")

prop("P09", "Snapshots are independent, handlers may re-enter, and closing is final",
     "What a collector returns, as a set of segments, an expired set or a snapshot of those held, belongs to the caller: it does not change afterwards, and modifying it does not affect the collector. An expiry handler may use or close the collector, or block, without stalling other use of it; closing is idempotent, leaves nothing to expire, and makes all later collection fail.",
     ["histories", "schedules"],
     "all histories of collection, snapshots, expiry and closing, with handlers which call back or block, and concurrent readers",
     "tests read one snapshot, and no test has a handler which does anything with the collector",
     ["collect.go"],
     [("snapshot copies", "collect.go Pipes"), ("handler called without the lock", "collect.go Collect"), ("close stops timers", "collect.go Close")],
     "runtime monitoring with the race detector, deadlock watchdog and linearizability checking of snapshots",
     "Re-entrant and blocking handlers run in virtual time under a watchdog which reports deadlock from goroutine states; snapshots in concurrent histories must be linearizable.")

prop("P10", "Decoders accept or reject any input without crashing or over-reading",
     "Any octets or text given to any decoder (TPDU, PDU mode, header, address, timestamp, validity period, septets, BCD, semi-octets, UCS-2, text) produce a result or an error, never a crash, hang or disproportionate memory use. Input is neither modified nor read beyond its end, and the result does not depend on what follows the input in memory or on the input buffer afterwards.",
     ["inputs", "fault_sequences"],
     "all octet strings: truncations, extensions and corruptions of valid PDUs at every offset, and noise",
     "tests cover a list of malformed inputs for each decoder; robustness is claimed of every octet string",
     [TP + "tpdu.go", TP + "userdata.go", TP + "address.go", TP + "timestamp.go", TP + "validityperiod.go", "encoding/pdumode/pdu.go", "encoding/pdumode/smscaddress.go", "encoding/semioctet/semioctet.go", "encoding/gsm7/7bit.go", "encoding/ucs2/ucs2.go", "sms.go"],
     [("length checks", TP + "tpdu.go Unmarshal methods")],
     "runtime monitoring: bounds-checked execution on hostile inputs in guarded buffers, with hang and memory watchdogs",
     "Go's bounds checks are the sanitizer; inputs are generated by mutation of valid PDUs and exhaustively for the shortest lengths.")

prop("P11", "Unmarshalled fields are those on the wire, and malformed PDUs are refused",
     "Unmarshalling a TPDU yields exactly the fields which 3GPP TS 23.040 assigns to its octets, given its type and direction and whatever the TPDU held before, and fails, naming the field, for octets which are truncated, inconsistent or carry values with no meaning.",
     ["inputs"],
     "all octet strings in either direction, within the specified encodings",
     "tests decode a few valid and truncated examples of each type",
     [TP + "tpdu.go", TP + "userdata.go", TP + "address.go", TP + "timestamp.go", TP + "validityperiod.go", TP + "firstoctet.go", TP + "dcs.go", "sms.go"],
     [("per type unmarshalling", TP + "tpdu.go"), ("type selection", "sms.go Unmarshal")],
     "runtime monitoring: differential oracle against an independent bit-level decoder",
     "The oracle is an independent decoder written from the specification; fields the specification leaves open (spare bits, invalid dates) are not compared.")

prop("P12", "Marshalling and unmarshalling are inverse",
     "A TPDU which can be represented marshals to the octets the specification prescribes, and those unmarshal to the same TPDU; octets which unmarshal re-marshal to the same octets, or to the canonical form of the same fields. This holds for all six types with every optional field present or absent.",
     ["inputs", "configurations"],
     "all representable TPDUs of all types, and all acceptable octet strings",
     "tests check separate lists of marshalled and unmarshalled examples, mostly with minimal fields",
     [TP + "tpdu.go", TP + "userdata.go", TP + "address.go", TP + "validityperiod.go", TP + "timestamp.go"],
     [("marshalling", TP + "tpdu.go MarshalBinary")],
     "runtime monitoring: round-trip oracle with an independent bit-level encoder",
     "Reports (DELIVER-REPORT, SUBMIT-REPORT) without a failure cause are a known finding: they marshal without the octet that unmarshalling requires.")

prop("P13", "What cannot be represented is refused, not corrupted",
     "Marshalling or encoding fails with an error, rather than producing octets with a wrapped length, a truncated field or altered content, whenever a field, header, user data, address, timestamp, validity period or message is beyond what its wire format can hold. The largest representable neighbour is accepted.",
     ["inputs", "configurations"],
     "all field values at and beyond the limits of their encodings, for every type",
     "tests try a few invalid values; the limits interact with the header and alphabet",
     [TP + "tpdu.go", TP + "userdata.go", TP + "address.go", TP + "timestamp.go", TP + "validityperiod.go", TP + "error.go", "encoding/pdumode/smscaddress.go", "encode.go"],
     [("overlength errors", TP + "tpdu.go encodeUserData"), ("segment count limit", "encode.go Encode")],
     "runtime monitoring: single-constraint violations, each with its representable neighbour",
     "One constraint is violated at a time in otherwise valid inputs of every type.")

prop("P14", "User data headers are encoded and queried faithfully",
     "Header elements are written and read in order with their contents intact, whatever their identifiers, and lengths inconsistent with the octets are refused. Queries for an element or for concatenation information return the last element of that identifier of the right size, or say there is none.",
     ["inputs"],
     "all lists of elements, with repeats, zero lengths and malformed concatenation elements, and all octet strings",
     "tests use headers of one or two elements",
     [TP + "userdata.go"],
     [("header codec", TP + "userdata.go"), ("queries", TP + "userdata.go IE, IEs, ConcatInfo")],
     "runtime monitoring: differential oracle against an independent header parser",
     "Monitored execution on generated headers and octets.")

prop("P15", "Addresses are encoded faithfully",
     "An address of any type of number and plan, numeric or alphanumeric, of any representable length, marshals to the specified octets and back to itself, and malformed addresses are refused. Setting the number, type or plan changes just that part, and the presented number has its international prefix exactly when it is international.",
     ["inputs"],
     "all address types, digit strings, alphanumeric texts and octets",
     "tests cover a few numbers of even and odd length and one alphanumeric",
     [TP + "address.go", "encoding/semioctet/semioctet.go"],
     [("address codec", TP + "address.go")],
     "runtime monitoring: differential oracle against an independent address codec",
     "Monitored execution; a 0xF nibble within digits is not judged.")

prop("P16", "PDU mode framing is faithful",
     "A TPDU with any service centre address, or none, framed as octets or hex of either case, is recovered exactly along with the address, whatever the PDU held before and whatever becomes of the source buffer; malformed or truncated framing and text which is not hex are refused.",
     ["inputs"],
     "all addresses, TPDU octets and framed octets or hex text",
     "tests frame a couple of PDUs",
     ["encoding/pdumode/pdu.go", "encoding/pdumode/smscaddress.go"],
     [("framing", "encoding/pdumode/pdu.go"), ("address", "encoding/pdumode/smscaddress.go")],
     "runtime monitoring: round-trip and differential oracle",
     "Monitored execution on generated PDUs and corruptions.")

prop("P17", "Timestamps keep the same instant, local time and zone",
     "A time in the century from 1970, in any representable zone, to the second, is encoded as its local date, time and quarter hour offset, and decodes to the same instant in the same zone, or the adjacent one if the zone is not a whole number of quarter hours. Octets with digits which are not decimal are refused.",
     ["inputs"],
     "all days of the century, times of day, and zones of either sign",
     "tests use four timestamps, two zones",
     [TP + "timestamp.go", "encoding/bcd/bcd.go"],
     [("codec", TP + "timestamp.go")],
     "runtime monitoring: enumeration of days and zones against an independent calendar",
     "Every day and zone is enumerated, times of day are sampled; invalid calendar dates are not judged.")

prop("P18", "Validity periods keep their meaning",
     "Relative, absolute and enhanced periods decode to the period the octets denote; a duration encodes to the relative or enhanced octets which denote it, or the nearest not exceeding it, limited to the range of the format, and every decoded period re-encodes to equivalent octets. Unknown or malformed formats are refused.",
     ["inputs"],
     "all relative octets, durations, enhanced formats and octets, and absolute times",
     "tests use one or two values in each range of the relative encoding",
     [TP + "validityperiod.go"],
     [("codec", TP + "validityperiod.go")],
     "runtime monitoring: enumeration of octets and sampling of durations against an independent interpretation",
     "All relative octets and enhanced formats are enumerated.")

prop("P19", "Flags, coding scheme and type octets are interpreted per specification",
     "For every value of the first octet, data coding scheme and parameter indicator, each query reports what the specification assigns to it, and each change alters just what it names, leaving every other bit, or fails where the octet cannot express it. The type of a TPDU follows from its direction and type bits for every value.",
     ["inputs"],
     "all 256 values of each octet with all arguments of each operation",
     "tests check some values of each",
     [TP + "firstoctet.go", TP + "dcs.go", TP + "parameterindicator.go", TP + "tpdu.go", TP + "options.go"],
     [("bit fields", TP + "firstoctet.go, dcs.go, parameterindicator.go")],
     "runtime monitoring: exhaustive enumeration of octets against specification tables",
     "The octet values and operations are enumerated completely.")

prop("P20", "Septets are packed and unpacked exactly",
     "Any sequence of septets, packed after any number of fill bits, unpacks to the same sequence, and the packed octets are bit for bit those specified. In USSD packing the filler is added exactly when a final octet would otherwise have seven spare bits, and is removed again on unpacking.",
     ["inputs"],
     "all septet sequences, lengths and fill bits, and all octet strings",
     "tests pack short ASCII samples",
     ["encoding/gsm7/7bit.go"],
     [("packing", "encoding/gsm7/7bit.go")],
     "runtime monitoring: differential oracle against a bit-by-bit packer",
     "Lengths are enumerated to 300 and contents to two septets, beyond which contents are sampled; the ambiguity inherent in USSD filler is excluded.")

prop("P21", "GSM 7 bit text conversion follows the tables and is reversible",
     "Each character encodes to the septet, or escaped septet, that the selected locking and shift tables assign it, and decodes back to itself; characters in neither table are refused. Unassigned or escaped septets decode as specified, or are refused in strict mode, and the tables agree with the specification in both directions.",
     ["inputs", "configurations"],
     "all characters, septets and septet sequences, in all combinations of tables and modes",
     "tests compare each table with itself, sample texts cover a few characters",
     ["encoding/gsm7/gsm7.go", "encoding/gsm7/charset/charset.go"],
     [("conversion", "encoding/gsm7/gsm7.go"), ("tables", "encoding/gsm7/charset")],
     "runtime monitoring: enumeration of tables and characters against reference tables",
     "All table cells and all Unicode characters are enumerated against a separate copy of the tables, transcribed from the current tree with the deviations noted in DESIGN.md.")

prop("P22", "The alphabet and language chosen are the first that can carry the text",
     "Text is encoded in the default 7 bit alphabet if that can hold it, else with the first of the permitted locking, shift, or locking and shift tables that can, else in UCS-2, and the header and coding scheme identify what was used. On decoding, the header's tables apply exactly when permitted, otherwise the default, so text decodes to what those tables assign.",
     ["inputs", "configurations"],
     "all texts, sets and orders of permitted tables, and header elements",
     "tests check a few sample words per language with one option each",
     [TP + "userdata.go", TP + "options.go", "encode.go", "options.go", "sms.go"],
     [("selection", TP + "userdata.go EncodeUserData"), ("decoding", TP + "userdata.go DecodeUserData")],
     "runtime monitoring: choice compared with an independent selector",
     "Monitored execution on generated texts of mixed languages and option sequences.")

prop("P23", "UCS-2 text survives, however surrogate pairs are divided",
     "Any text converts to UTF-16 and back unchanged, and the units of malformed text yield every character that is present, with unpaired surrogates and odd lengths reported. A surrogate pair divided between consecutive segments decodes to the one character; half a pair is never joined to text of another alphabet.",
     ["inputs"],
     "all code points, 16 bit unit sequences, and divisions into segments",
     "tests decode a few strings and one divided pair",
     ["encoding/ucs2/ucs2.go", "sms.go"],
     [("conversion", "encoding/ucs2/ucs2.go"), ("joining of divided pairs", "sms.go Decode")],
     "runtime monitoring: enumeration of code points and units against an independent decoder",
     "Every code point and unit is enumerated; sequences and divisions are sampled.")

prop("P24", "BCD and semi-octet conversions are exact",
     "Every representable integer or digit string converts to the specified nibbles and back to itself, for any field width or digit count, and invalid digits, ranges and short input are refused.",
     ["inputs"],
     "all octets, digit characters, integers and digit strings",
     "tests cover samples of each",
     ["encoding/bcd/bcd.go", "encoding/semioctet/semioctet.go"],
     [("conversion", "encoding/bcd/bcd.go, encoding/semioctet/semioctet.go")],
     "runtime monitoring: exhaustive enumeration of octets and sampled strings against an independent conversion",
     "Single octets and octet pairs are enumerated completely; longer strings are sampled.")

prop("P25", "A set of segments is complete only if it is one whole message in order",
     "A list of TPDUs is recognised as a complete message exactly when it is a single unconcatenated TPDU, or holds every segment of one message, once each and in order, all agreeing on reference and total. The concatenation information reported for a TPDU is that of its header.",
     ["inputs"],
     "all lists of segments, including those with segments missing, repeated, out of order or from another message",
     "tests cover a few lists of two or three",
     ["sms.go", TP + "tpdu.go", TP + "userdata.go"],
     [("completeness", "sms.go IsCompleteMessage"), ("concatenation information", TP + "tpdu.go ConcatInfo")],
     "runtime monitoring: enumeration of short arrangements and sampled lists against a direct definition",
     "All arrangements of short messages are enumerated; lists mixing reference widths are not generated.")

prop("P26", "The command line tools report what the library determines",
     "Each tool prints, for valid arguments, exactly what the message or PDUs determine: the TPDUs of a submitted message, the messages reassembled from delivered TPDUs and those left incomplete, the fields of a TPDU, the encoding and size of a message, and the character tables. Invalid arguments are reported on the error stream without crashing or printing a bogus result.",
     ["inputs", "configurations"],
     "all messages, numbers, languages, PDUs and malformed arguments",
     "only two of the tools' functions have tests, over a few values, and none runs a tool",
     ["cmd/smssubmit/smssubmit.go", "cmd/smsdecode/smsdecode.go", "cmd/smsdeliver/smsdeliver.go", "cmd/smscounter/smscounter.go", "cmd/charsets/charsets.go"],
     [("tools", "cmd")],
     "runtime monitoring: processes run on generated arguments, output compared with the reference model",
     "Monitored runs of the built tools; arguments are sampled.")

prop("P27", "Operations do not modify the caller's data",
     "No encoding, decoding, marshalling, segmentation or conversion writes to memory of its arguments, including template headers, option lists, segments, tables and the spare capacity beyond the end of slices. Tables and lists handed to the caller are not aliases through which the package's own state can be altered by later calls.",
     ["inputs", "histories"],
     "all operations on all arguments whose slices have spare capacity or are shared",
     "tests pass fresh literals whose slices have no spare capacity, and do not look at arguments afterwards",
     ["sms.go", "encode.go", "options.go", TP + "tpdu.go", TP + "userdata.go", "encoding/gsm7/gsm7.go", "encoding/gsm7/charset/charset.go", "encoding/ucs2/ucs2.go"],
     [("copies before append or write", "sms.go Decode, " + TP + "tpdu.go Segment")],
     "runtime monitoring: deep snapshots of arguments, with marked spare capacity, before and after every operation",
     "Arguments are compared to their full capacity; writes which restore the same value are visible only to the race detector of P05.")

prop("P28", "Errors name the field at fault, where it is, and the cause",
     "An error from decoding names the type and field at fault, gives the octet where that field, or the part of it at fault, begins, and the cause; a part decoded in place fails as it does alone, displaced to where it begins. An error from encoding names the type, field and cause, and errors which carry a value carry the first which was refused.",
     ["inputs"],
     "all inputs which a decoder or encoder refuses",
     "tests compare the errors of a few dozen short inputs, where offsets are small and only one thing is wrong",
     [TP + "error.go", TP + "tpdu.go", TP + "address.go", TP + "userdata.go", TP + "validityperiod.go", "encoding/pdumode/smscaddress.go", "encoding/semioctet/semioctet.go", "encoding/bcd/bcd.go", "encoding/gsm7/gsm7.go"],
     [("nested errors", TP + "error.go NewDecodeError, EncodeError")],
     "runtime monitoring: errors compared with the fault found by the reference decoder, and with those of the part alone",
     "Faults are generated (truncations, all octet values at each position, sampled corruption, violated constraints). Within a field the offset is checked against the code's own decoder of the part.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
            if p["state"]:
                a["state"] = p["state"]
            a["observe_at"] = p["observe"] or ["results of the exported operations"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                          thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                          technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
             not_applicable=[],
             notes="No hooks in /repo: the harness observes exported behaviour only. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
