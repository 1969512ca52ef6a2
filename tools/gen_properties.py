import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
ps=[
P("C01","Intact NAL units are reported exactly as their sender coded them",
"Whenever a NAL unit reaches the parser undamaged and the parameter sets it refers to are the ones its sender used, the parser reports the NAL header and every syntax element the library implements (VPS, SPS with VUI/HRD/extensions, PPS, slice segment header, AUD, first SEI message) with exactly the value that was coded or that the standard infers for it, and the picture sizes and frame rate it derives from a sequence parameter set are those the standard derives from the coded values. This holds whatever was lost, damaged, duplicated, reordered or restarted earlier in the session, and whichever carrier brought the unit; and a syntax structure given on its own to its parser is reported likewise.",
["histories","fault_sequences","inputs"],"all sender sessions (any legal values of the implemented syntax), all loss/damage/duplication/reordering/restart histories before the intact unit",
"Unit tests parse a few dozen fixed buffers, each against a fresh or hand-filled state; interactions between syntax elements and between a slice and an arbitrary history of parameter sets are not reached.",
["src/h265_vps_parser.cc","src/h265_sps_parser.cc","src/h265_pps_parser.cc","src/h265_slice_parser.cc","src/h265_sei_parser.cc","src/h265_vui_parameters_parser.cc","src/h265_hrd_parameters_parser.cc","src/h265_profile_tier_level_parser.cc","src/h265_st_ref_pic_set_parser.cc","src/h265_pred_weight_table_parser.cc","src/h265_scaling_list_data_parser.cc","src/rtc_common.cc"],
[("bit-exact syntax readers","src/*_parser.cc"),("emulation prevention removal","src/h265_common.cc UnescapeRbsp")],["fields of the returned per-NAL state objects"]),
P("C02","The newest accepted parameter set of each id is the active one",
"After any sequence of deliveries, the parser state holds, for every VPS, SPS and PPS id, exactly the content of the latest parameter set of that kind and id that the parser accepted, and nothing else. A parameter set that is refused, and any NAL unit of another type, leaves the stored sets untouched. Every slice is interpreted with the PPS it names and the SPS that PPS names as stored at that point of the stream, and is refused when either is missing.",
["histories","fault_sequences"],"all sequences of intact, damaged, truncated, duplicated and re-sent parameter sets with colliding ids, interleaved with every other NAL type",
"Tests feed at most one parameter set of each kind per state; replacement, refusal after acceptance, id collisions and missing references are not exercised as histories.",
["src/h265_nal_unit_payload_parser.cc","src/h265_bitstream_parser_state.cc","src/h265_slice_parser.cc"],
[("store on success only, keyed by the set's own id","src/h265_nal_unit_payload_parser.cc"),("lookup through PPS to SPS","src/h265_slice_parser.cc")],["maps of the parser state","GetVps/GetSps/GetPps","slice header of the next slice"],
[("vps/sps/pps maps","active parameter sets","include/h265_bitstream_parser_state.h")]),
P("C03","Start-code framing reports every NAL unit once, in order, at its place",
"For a byte stream built from NAL units separated by 3- or 4-byte start codes, the parser reports each NAL unit of at least two bytes exactly once and in order, with the offset and length of exactly that NAL unit's bytes, however the stream is cut into buffers at NAL boundaries and whatever bytes precede the first start code. Damage inside one NAL unit never changes how many other NAL units are found or where.",
["inputs","fault_sequences","histories"],"all NAL sequences (sizes down to zero bytes, payloads full of zeros and near start codes), start-code lengths, leading garbage, splits into buffers and damage that creates no new start code",
"Tests look at a handful of short buffers with few NAL units; start-code look-alikes, empty units, trailing truncation and splits are not quantified over.",
["src/h265_bitstream_parser.cc"],[("start-code scan","src/h265_bitstream_parser.cc FindNaluIndices")],["nal_units offset/length/count","NaluIndex list"]),
P("C04","Length-prefixed framing reports every NAL unit once and never overruns",
"For a buffer of NAL units each preceded by a 1-, 2-, 4- or 8-byte big-endian length, the parser reports every unit of at least two bytes once, in order, with its true offset and length. When the buffer is truncated or a length field is zero or exceeds the remaining bytes, exactly the units before that point are reported and no byte outside the buffer influences the result.",
["inputs","fault_sequences"],"all NAL sequences, length-field widths, truncation points and damaged length fields including the largest encodable values",
"Tests use one or two well-formed buffers; damaged and overflowing lengths and truncation at every byte are not covered.",
["src/h265_bitstream_parser.cc","src/h265_common.cc"],[("length-prefix loop","src/h265_bitstream_parser.cc ParseBitstreamNALULength"),("explicit framing scan","src/h265_bitstream_parser.cc FindNaluIndicesExplicitFraming")],["nal_units offset/length/count","NaluIndex list"]),
P("C05","RTP packets yield exactly the NAL units they carry",
"A single-NAL packet, and every unit of an aggregation packet, is reported with the header, size and content of that unit's own bytes, exactly as if that unit had been parsed on its own at that point of the session, and a fragmentation packet reports its flags and, for a first fragment, the content of the fragmented unit. Packet loss, duplication, reordering and damage affect only the affected packets and the parameter sets they carried.",
["fault_sequences","histories","inputs"],"all packetisations of all sessions into single, aggregation and fragmentation packets, under all loss/duplication/reordering/damage/truncation sequences",
"Tests parse one packet of each kind with hand-made contents; aggregation of slices, unknown types or escaped payloads and packet loss histories are not reached.",
["src/h265_rtp_parser.cc","src/h265_rtp_ap_parser.cc","src/h265_rtp_fu_parser.cc","src/h265_rtp_single_parser.cc"],[("dispatch on packet type","src/h265_rtp_parser.cc"),("aggregation loop","src/h265_rtp_ap_parser.cc")],["rtp_single/rtp_ap/rtp_fu fields","parser state after each packet"]),
P("C06","An out-of-band configuration record equals in-band delivery of its units",
"Parsing a decoder configuration record reports every fixed field and every array entry with the coded value, parses each contained NAL unit exactly as in-band delivery would, and leaves the parser with the same parameter sets, so later samples are parsed identically. A truncated or malformed record is refused, and only units wholly received before the damage may have had an effect.",
["inputs","histories","fault_sequences"],"all records (any arrays, unit counts, unit contents), all truncation points and damaged fields, followed by any sample stream",
"Tests parse one well-formed record; multi-array records, empty or undecodable units, truncation and the hand-over to sample parsing are not covered.",
["src/h265_configuration_box_parser.cc"],[("record parser","src/h265_configuration_box_parser.cc")],["record fields, nested units, parser state"]),
P("C07","Damage to one NAL unit stays contained",
"If some NAL units of a delivery are corrupted, truncated or lost, then every other NAL unit that does not depend on a lost or changed parameter set is reported exactly as in the undamaged delivery. In particular a corrupted slice, SEI message, delimiter or refused parameter set changes nothing but its own report.",
["fault_sequences","histories"],"all choices of damaged units and damage (bit flips, byte loss, truncation, overwritten content) in all streams over all carriers",
"Tests never compare a damaged session with its undamaged twin.",
["src/h265_bitstream_parser.cc","src/h265_nal_unit_parser.cc","src/h265_nal_unit_payload_parser.cc"],[("continue after an unparsable unit","src/h265_bitstream_parser.cc"),("per-unit parsing with no carried reader state","src/h265_nal_unit_parser.cc")],["reports of the undamaged units in both runs"]),
P("C08","A report depends only on the bytes and the active parameter sets",
"What the parser reports for a NAL unit, intact or damaged, and how it changes the stored parameter sets, is a function of that unit's bytes and the currently stored parameter sets alone: a long-running session, a freshly restarted receiver that was given just the current sets, and a repetition of the same call all agree. Once faults stop and the sender repeats its parameter sets, a receiver with any past reports the same as one that never saw a fault.",
["histories","fault_sequences","crash_points"],"all pasts (including crashes, restarts and late joins at any point and dirty memory) that lead to the same stored sets, and all next units",
"Tests run every parse once in a fresh process with clean memory, so stale or uninitialised state cannot show.",
["src/h265_nal_unit_payload_parser.cc","src/h265_slice_parser.cc","include/h265_bitstream_parser_state.h"],[("no hidden state besides the parser state object","src/"),("initialised result objects","include/")],["full field tree of reports in paired sessions"]),
P("C09","Reported results are stable snapshots",
"A result handed to the caller never changes and stays valid for as long as the caller keeps it: later parsing, replacement of the parameter sets it refers to, reuse or release of the input buffer, and destruction of the parser state or of other results have no effect on it. Parsing and dumping never modify the caller's input buffer.",
["histories"],"all orders of parsing, replacing parameter sets, overwriting/freeing buffers, dropping states and dropping results",
"Tests drop everything at the end of one call and never re-read old results after further parsing.",
["include/h265_bitstream_parser_state.h","include/h265_nal_unit_payload_parser.h","src/h265_nal_unit_payload_parser.cc","src/h265_common.cc"],[("shared ownership of parameter sets","include/h265_nal_unit_payload_parser.h"),("replacement by pointer, not in place","src/h265_nal_unit_payload_parser.cc")],["field tree of every retained result at any later time"]),
P("C10","No input can crash the parser or make it touch foreign memory",
"For every sequence of byte buffers, however damaged, given to any parsing entry point of one session, and for every dump, query or release of whatever was returned, the call returns normally: no crash, abort, out-of-bounds or use-after-free access, and no undefined arithmetic.",
["fault_sequences","inputs","histories"],"all damaged sessions over all carriers and entry points (streams, length-prefixed buffers, single units, RTP packets, configuration records, QP queries, dumps)",
"Tests use valid inputs and a few recorded crashers; fuzzers run single buffers without session history or dumps of every result.",
["src/","tools/h265nal.cc","include/"],[("checked bit reads and range checks","src/"),("null checks in dumps","src/*fdump*")],["process exit, sanitizer reports"]),
P("C11","Work, memory and output are bounded by the size of the input",
"Every parsing call finishes within a number of steps and with an amount of memory that grow at most in proportion to the bytes given to it plus those of the stored parameter sets, whatever the bytes are, and dumping a result is bounded in the same way. No short input can make the parser spin, allocate or print without limit, and a long history does not either: the same bytes cost the same however much was parsed before, and what was allocated for results and sessions is given back when they are destroyed.",
["inputs","fault_sequences"],"all buffers, including damaged counts and sizes, in all sessions, measured in executed code edges and allocated bytes rather than wall time",
"Tests do not measure work; fuzzers only notice hangs of many seconds.",
["src/h265_sei_parser.cc","src/h265_slice_parser.cc","src/h265_pps_parser.cc","src/h265_vps_parser.cc","src/h265_st_ref_pic_set_parser.cc","src/h265_configuration_box_parser.cc"],[("every loop iteration consumes input bits or is range-checked","src/")],["edge counter, allocation meter, dump length"]),
P("C12","Independent sessions on different threads do not affect each other",
"Any number of sessions, each with its own parser state, may run concurrently on different threads, and any number of threads may concurrently read and dump results that are no longer being modified: every session reports exactly what it reports when run alone, under every interleaving.",
["schedules"],"all interleavings, at the granularity of basic blocks of the library, of two or more sessions and readers",
"All tests are single-threaded.",
["src/","include/h265_bitstream_parser_state.h"],[("no mutable globals or function-local statics","src/"),("all mutable data reached from the caller's state object","include/h265_bitstream_parser_state.h")],["reports of each session vs. its solo run"]),
P("C13","File reading returns the exact bytes or an error",
"Reading an input file or standard input succeeds only with exactly the bytes the file or stream held, in order and completely; open failures, read errors, interruptions, short reads and files that shrink while being read are either ridden out or reported as failure, never as success with missing or altered data. Successful short reads alone never cause failure or loss. For a named file the bytes are those it holds while it is read; for standard input they are those the stream delivered before its end.",
["fault_sequences","crash_points"],"all file sizes (including around chunk boundaries) and all sequences of short reads, EINTR, EIO, open/seek/stat failures and concurrent truncation or growth at any system call",
"Tests never inject I/O faults.",
["src/h265_utils.cc"],[("size query, full read and count check","src/h265_utils.cc ReadFile"),("chunked stdin loop","src/h265_utils.cc ReadStdinToBuffer")],["return value and buffer contents"]),
P("C14","The command-line tool succeeds only with complete, correct output",
"The command-line tool exits with status zero only if it read its whole input and wrote its whole output, and that output is exactly what the library reports for that input and options, whatever mix of short reads and writes it met; on any input or output error it exits with a non-zero status. It never crashes, whatever the input file contains and whatever valid options are given.",
["fault_sequences","configurations","inputs"],"all option combinations, input files (including damaged ones) and sequences of I/O faults at any system call (short writes, ENOSPC, EIO, EINTR, failing close, failing open)",
"The tool has no tests.",
["tools/h265nal.cc","src/h265_utils.cc"],[("argument handling and output loop","tools/h265nal.cc")],["exit status and output file / stdout"]),
P("C15","The slice QP query returns the QP the sender set",
"For every intact independent slice segment whose parameter sets were received, querying slice QP over a stream buffer returns 26 plus the initial QP offset of the PPS in force at that slice plus the slice's own delta, one value per reported slice header in stream order, and leaves the parser with the same parameter sets as parsing that buffer. Querying an RTP packet that was parsed returns the same value for the slice it carries (the last unit of an aggregation packet), and nothing for packets or units that carry no decodable slice start.",
["histories","fault_sequences"],"all sessions with several PPS contents per id, buffers mixing parameter sets and slices, and RTP packetisations, under loss and damage",
"Tests query a couple of fixed slices with one PPS.",
["src/h265_utils.cc"],[("QP computation","src/h265_utils.cc GetSliceQpYInternal")],["returned QP values"]),
P("C16","Dumps are complete, faithful and free of side effects",
"The textual dump of any result shows, for every syntax element it names, the value held in that result (over the whole range the standard allows it), in the same order and content in one-line and multi-line form; optional offset, length, parsed-length, checksum and resolution lines appear exactly when asked for. Dumping twice gives the same text and changes neither the result nor the parser state, before and after further parsing.",
["histories","configurations"],"all results of all sessions (including damaged units), all dump options and indentations",
"Tests check the dump text of a few units.",
["src/*fdump*","tools/h265nal.cc"],[("fdump functions","src/*.cc")],["dump text parsed back and compared with the result's fields"]),
P("C17","Checksum and length metadata describe the delivered unit",
"The checksum reported for a NAL unit is the 32-bit ones'-complement sum of its unescaped bytes, so it is the same for every delivery of the same unit over any stream carrier and differs after any damage confined to one 32-bit word of those bytes (other than exchanging an all-zero for an all-ones word, which ones'-complement arithmetic cannot tell apart); it is present exactly when requested. The reported parsed length never exceeds the unescaped unit and equals the coded header plus syntax for an intact unit.",
["inputs","fault_sequences","configurations"],"all units, deliveries over all carriers, damage patterns and option settings",
"Tests check the checksum of a few fixed buffers.",
["src/h265_common.cc","src/h265_nal_unit_parser.cc"],[("checksum over the unescaped unit","src/h265_common.cc NaluChecksum")],["checksum and parsed_length of each reported unit"]),
P("C18","All delivery paths of the same units agree",
"The same sequence of NAL units gives the same reports and leaves the same parameter sets whether it is delivered as a start-code stream, a length-prefixed buffer of any prefix width, unit by unit, pre-unescaped, as single or aggregated RTP packets, in one configuration record, or part by part through the header and payload parsers (the caller keeping the sets), and whether in one buffer or many, and whether or not optional metadata is requested. A syntax structure on its own gives the same report through the parser that takes a byte buffer and the one that takes a bit reader.",
["configurations","histories","inputs"],"all unit sequences (intact or damaged) and all choices of carrier, grouping and parsing options per unit",
"Tests exercise each path on separate data and never compare them.",
["src/h265_bitstream_parser.cc","src/h265_nal_unit_parser.cc","src/h265_rtp_parser.cc","src/h265_configuration_box_parser.cc"],[("all paths share the unit payload parser","src/h265_nal_unit_payload_parser.cc")],["reports and states of sessions fed by different paths"]),
P("C19","A truncated unit is never mistaken for a complete one",
"When the delivery of a VPS, SPS, PPS, slice header, access unit delimiter or SEI message is cut short before the last bit of its mandatory syntax, the parser refuses that content: it reports no decoded payload for it and stores no parameter set from it; the parsers of the single syntax structures refuse a structure cut short likewise. It never fills the missing fields with invented values.",
["fault_sequences","crash_points","inputs"],"all units of all sessions cut at every byte position, over all carriers",
"Tests contain very few truncated buffers.",
["src/rtc_common.cc","src/*_parser.cc"],[("every bit read is checked and its failure propagated","src/*_parser.cc")],["payload pointer of the cut unit and the stored sets"]),
P("C20","NAL unit type names and classes follow the standard's table",
"The type-name and type-class helpers return, for each of the 64 NAL unit types (and the RTP-only types), the name and class the standard's table gives.",
["inputs"],"the finite set of type values","Tests sample a few values.",
["src/h265_common.cc"],[("lookup tables","src/h265_common.cc")],["helper return values"]),
P("C21","Profile classification follows the profile constraint flags",
"The profile reported for a profile/tier/level structure is the one the standard's constraint-flag tables assign to its flags.",
["inputs"],"all flag combinations","Tests sample some profiles.",
["src/h265_profile_tier_level_parser.cc"],[("classification cascade","src/h265_profile_tier_level_parser.cc GetProfileType")],["profile type value"]),
P("C22","The bit writer round-trips through the bit reader",
"Any sequence of fixed-width and Exp-Golomb values written with the bit writer is read back unchanged by the bit reader.",
["inputs"],"all value sequences that fit the buffer","Tests write a few values.",
["src/rtc_common.cc"],[("BitBufferWriter","src/rtc_common.cc")],["values read back"]),
P("C23","Values beyond their limits are refused; lists have their announced length",
"No report and no stored parameter set ever holds a value beyond the limit the standard sets for an identifier, size, depth, count or index that the parser restricts: VPS largest layer id and numbers of layer sets and HRD structures; SPS and PPS ids (so that a session never holds more than 16 VPSs, 16 SPSs and 64 PPSs); chroma format, picture size (nonzero, within the largest level, whole blocks of the smallest block size), conformance window offsets (at most the picture size), bit depths, picture order count length, block size exponents, decoded picture buffer sizes, numbers of short- and long-term reference picture sets and the picture counts and distances in them, VUI chroma locations, display window and bitstream restrictions, palette sizes; slice entry point count (by tiles and rows of the active sets) and offset length. A unit that carries one such value, through damage or from a sender that breaks the rules, is refused and changes no stored set; a value at its limit is accepted. Every list in a report has exactly the number of entries its own count announces.",
["histories","fault_sequences","inputs"],"all sessions of legal, rule-breaking (one or many elements) and damaged units over all carriers",
"Tests refuse a handful of hand-made values; the boundary of every limit, in every position and with arbitrary legal surroundings, and the invariant over damaged units are not reached.",
["src/h265_vps_parser.cc","src/h265_sps_parser.cc","src/h265_vui_parameters_parser.cc","src/h265_st_ref_pic_set_parser.cc","src/h265_sps_scc_extension_parser.cc","src/h265_slice_parser.cc"],[("range checks after each read","src/*_parser.cc"),("limits","include/h265_common.h h265limits, k*Min/k*Max constants")],["values and list lengths of reported units and stored sets"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+"\n")
