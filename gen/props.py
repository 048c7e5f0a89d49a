#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe if isinstance(observe, list) else [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Annex B streams are split into exactly the NAL units they contain",
  "For every byte buffer, the reported NAL units are exactly those delimited by three-byte start codes (00 00 01) that have at least one byte after them: each unit's data begins right after its start code and ends where the next start code begins (a zero byte directly before a start code belongs to that start code), the last unit runs to the end of the buffer, and units come in stream order. No unit is missed, invented, merged, split or reordered, and bytes before the first start code are ignored.",
  ["inputs"], "every byte buffer; checked on all buffers over a covering byte alphabet up to a length bound and on all start-code placements in longer buffers",
  "A unit test fixes a few layouts; the guarantee is about every arrangement of zeros, ones, adjacent/overlapping start codes and buffer ends.",
  ["src/h264_bitstream_parser.cc"], [("Annex B scanner", "H264BitstreamParser::FindNaluIndices"), ("Annex B parse loop", "H264BitstreamParser::ParseBitstream")],
  observe="returned index list; offsets/lengths of the parsed NAL units")

p("C02", "Length-prefixed streams are split exactly by their size fields",
  "For every buffer and every prefix width of 1 to 8 bytes, a length-prefixed stream is cut into consecutive units, each of exactly the big-endian size its prefix announces; walking stops at the first incomplete prefix, zero size, or size larger than what remains, and a width of 0 treats the whole buffer as one unit. Each reported unit carries the position of its first byte and its size, and no size value, however large, makes the parser read beyond the buffer or go backwards. The 4-byte explicit-framing index lists the same boundaries, with zero-size entries included.",
  ["inputs", "configurations"], "every buffer, every prefix width 0..8",
  "Tests use one width and one well-formed stream; boundary sizes (0, remaining, remaining+1, 2^32-1, 2^64-1) and widths multiply beyond samples.",
  ["src/h264_bitstream_parser.cc"], [("length walk", "H264BitstreamParser::ParseBitstreamNALULength"), ("size reader", "read_nalu_length"), ("explicit framing index", "H264BitstreamParser::FindNaluIndicesExplicitFraming")])

p("C03", "Emulation-prevention bytes, and only those, are removed before parsing",
  "For every byte string, unescaping drops each 03 byte that directly follows two zero bytes of the original data (counting restarts after every dropped byte) and keeps all other bytes in order, with no special cases for position or for the byte that follows. Hence any payload that is escaped by a conforming encoder comes back bit-identical, and parsing an escaped NAL unit gives the same result as parsing the unescaped bytes directly.",
  ["inputs"], "every byte string up to the bound over the alphabet {00,01,02,03,04,FF}, and every escaped structure of the syntax enumerations",
  "Escape sequences interact with buffer ends and with each other (00 00 03 00 00 03, 00 00 00 03); tests sample a few.",
  ["src/h264_common.cc", "src/h264_nal_unit_parser.cc"], [("unescape", "UnescapeRbsp"), ("escaped entry", "H264NalUnitParser::ParseNalUnit(data,length)")])

p("C04", "The bit reader returns exactly the requested bits or fails cleanly",
  "For every buffer and every sequence of read, peek, skip, seek and Exp-Golomb operations, each operation that fits returns exactly the value of the addressed bits (most significant first; Exp-Golomb values per their definition) and advances by exactly the bits consumed, and each operation that does not fit fails. A failed read never reads outside the buffer, and a failed fixed-width or Exp-Golomb read, peek, skip or seek leaves the position unchanged; the number of remaining bits always equals the buffer size minus the position.",
  ["inputs", "histories"], "all operation sequences up to a depth over all buffers of a covering set",
  "Correctness depends on the bit offset left by all previous operations and on the distance to the buffer end; tests cover single operations from byte-aligned positions.",
  ["src/rtc_common.cc", "include/rtc_common.h"], [("bit reader", "class BitBuffer"), ("Exp-Golomb", "BitBuffer::ReadExponentialGolomb / ReadSignedExponentialGolomb"), ("ns(n)", "BitBuffer::ReadNonSymmetric")],
  state=[("position", "current bit position of the reader in its buffer")])

p("C05", "Bits written by the bit writer read back exactly and nothing else changes",
  "For every buffer content and every sequence of write and seek operations that fits, the addressed bits take exactly the written values, every other bit of the buffer keeps its value, and reading back with the bit reader returns the written values, including Exp-Golomb and non-symmetric codes. A write that does not fit is refused and changes neither the position nor any byte.",
  ["inputs", "histories"], "all write sequences up to a depth over covering widths, values and start offsets",
  "Neighbouring-bit preservation depends on the combination of bit offset, width and value.",
  ["src/rtc_common.cc"], [("bit writer", "class BitBufferWriter"), ("size helpers", "SizeExponentialGolomb, CountBits")])

p("C06", "NAL unit headers are decoded exactly and select the right payload",
  "For every byte sequence, the NAL unit header yields the forbidden bit, reference idc and unit type of its first byte and, for types 14, 20 and 21, the extension fields that follow; a header that is cut short or uses an extension that is not supported makes the unit unreadable. The payload is interpreted according to the type and reference idc of that header only, types without a supported payload yield no payload, and the type-name, slice, reserved and unspecified classifications are consistent for all type values.",
  ["inputs"], "all 256 first bytes, all extension header field combinations (3 bytes, exhaustive), all truncations",
  "The header space is small but no test walks it; a wrong arm in the dispatch only shows for the one type concerned.",
  ["src/h264_nal_unit_header_parser.cc", "src/h264_nal_unit_header_svc_extension_parser.cc", "src/h264_nal_unit_payload_parser.cc", "src/h264_common.cc"],
  [("header", "H264NalUnitHeaderParser::ParseNalUnitHeader"), ("svc ext", "H264NalUnitHeaderSvcExtensionParser"), ("dispatch", "H264NalUnitPayloadParser::ParseNalUnitPayload"), ("names", "NalUnitTypeToString, IsSliceSegment, IsNalUnitTypeReserved, IsNalUnitTypeUnspecified")])

p("C07", "A sequence parameter set decodes to exactly the values encoded in it",
  "For every sequence parameter set that respects the value ranges of the standard, every syntax element reported after parsing equals the encoded one, in every combination of profile, chroma format, scaling lists, picture order count type, interlacing, cropping and extension data, and elements that are absent take their inferred value (of the scaling lists, the presence and default flags and the last list of each size are reported). A set that is truncated, or whose identifiers, formats, bit depths, counts, sizes, cropping or scaling deltas are outside their ranges, is rejected as a whole. The sequence parameter set extension decodes, or is rejected, in the same way.",
  ["inputs"], "all combinations of optional branches and boundary values within the stated deviation bound",
  "Conditional syntax gives a combinatorial space; a mis-read element shifts all later ones only in the branch concerned.",
  ["src/h264_sps_parser.cc", "src/h264_sps_extension_parser.cc"], [("SPS", "H264SpsParser::ParseSps"), ("SPS data", "H264SpsDataParser::ParseSpsData"), ("scaling lists", "SpsDataState::scaling_list"), ("SPS extension", "H264SpsExtensionParser")])

p("C08", "VUI and HRD parameters decode to exactly the values encoded in them",
  "For every VUI structure, including NAL and VCL hypothetical-decoder parameters, within the ranges of the standard, every element reported equals the encoded one for every combination of presence flags, and a structure that is truncated or out of range is rejected together with the parameter set that carries it.",
  ["inputs"], "all combinations of presence flags and boundary values within the deviation bound",
  "2^10 presence combinations with nested loops; tests cover a couple.",
  ["src/h264_vui_parameters_parser.cc", "src/h264_hrd_parameters_parser.cc"], [("VUI", "H264VuiParametersParser::ParseVuiParameters"), ("HRD", "H264HrdParametersParser::ParseHrdParameters")])

p("C09", "A picture parameter set decodes to exactly the values encoded in it",
  "For every picture parameter set that respects the value ranges of the standard, every syntax element reported after parsing equals the encoded one, for every slice-group map type, weighted-prediction mode and optional trailing part (8x8 transform flag, scaling matrix, second chroma offset), and the trailing part is recognised exactly when it is present, whatever the bit position of the end and however many zero bytes follow. A set that is truncated, or whose identifiers, counts, map type, sizes or scaling deltas are out of range, is rejected as a whole.",
  ["inputs"], "all combinations of branches and boundary values within the deviation bound",
  "Presence of the optional part depends on bit alignment of everything before it.",
  ["src/h264_pps_parser.cc", "src/h264_common.cc"], [("PPS", "H264PpsParser::ParsePps"), ("more data", "more_rbsp_data"), ("scaling lists", "PpsState::scaling_list")])

p("C10", "A slice header decodes exactly, under the parameter sets it refers to",
  "For every slice NAL unit and every state of the parameter sets, the slice header elements reported equal the encoded ones, where the presence and width of each element follow from the picture and sequence parameter sets the slice refers to and from the slice type, unit type and reference idc; reference index counts not overridden equal the picture parameter set defaults. A slice that refers to a parameter set not seen before, is truncated, or has an identifier, type, count, operation code or quantiser delta out of range is reported as unparsed.",
  ["inputs", "histories"], "all combinations of parameter-set features and slice branches within the deviation bound",
  "The layout is a function of three structures; tests pick a handful of combinations.",
  ["src/h264_slice_header_parser.cc", "src/h264_ref_pic_list_modification_parser.cc", "src/h264_pred_weight_table_parser.cc", "src/h264_dec_ref_pic_marking_parser.cc", "src/h264_slice_layer_without_partitioning_rbsp_parser.cc"],
  [("slice header", "H264SliceHeaderParser::ParseSliceHeader"), ("RPLM", "H264RefPicListModificationParser"), ("weights", "H264PredWeightTableParser"), ("marking", "H264DecRefPicMarkingParser")])

p("C11", "SVC parameter sets and prefix units decode to the values encoded in them",
  "For every subset sequence parameter set and prefix NAL unit within the ranges of the standard, the scalable extension elements and the extension header elements reported equal the encoded ones and the embedded sequence parameter set decodes as a plain one would; structures that are truncated, or whose dependent identifiers, formats, counts or sizes are out of range, are rejected.",
  ["inputs"], "all combinations of branches and boundary values within the deviation bound",
  "Layout depends on profile, chroma format and extension flags jointly.",
  ["src/h264_subset_sps_parser.cc", "src/h264_sps_svc_extension_parser.cc", "src/h264_prefix_nal_unit_parser.cc"],
  [("subset SPS", "H264SubsetSpsParser"), ("SVC SPS extension", "H264SpsSvcExtensionParser"), ("prefix NAL unit", "H264PrefixNalUnitRbspParser / H264PrefixNalUnitSvcParser")])

p("C12", "A scalable slice header decodes exactly, under its parameter sets",
  "For every coded slice extension unit and parameter-set state, the elements of the scalable slice header reported equal the encoded ones, with presence and width determined by the picture parameter set, the subset sequence parameter set it refers to and the unit's extension header; reference index counts not overridden equal the picture parameter set defaults. A slice extension that refers to a missing parameter set, is truncated, or has an identifier, type, count or operation code out of range is reported as unparsed.",
  ["inputs", "histories"], "all combinations of parameter-set features, extension header and slice branches within the deviation bound",
  "The layout is a function of four structures.",
  ["src/h264_slice_header_in_scalable_extension_parser.cc", "src/h264_slice_layer_extension_rbsp_parser.cc"],
  [("SVC slice header", "H264SliceHeaderInScalableExtensionParser"), ("slice extension", "H264SliceLayerExtensionRbspParser")])

p("C13", "Malformed payloads are rejected; nothing is reported from beyond the data",
  "For every NAL unit payload, whatever its bytes, the parser accepts it exactly when the standard's syntax can be read from the bytes present with every range-restricted element (identifiers, types, formats, counts, sizes, operation codes) in range, and when it accepts, all elements are those encoded in these bytes. In particular no proper prefix cut before the last required element, and no single corrupted bit, leads to an accepted structure with values that are not in the data. The same holds for each structure parser called on its own.",
  ["inputs"], "all truncations and all single-bit corruptions of every structure of a covering set, and all byte strings up to a length bound per payload type",
  "Error paths outnumber success paths; a forgotten check shows only at one cut position.",
  ["src/h264_sps_parser.cc", "src/h264_pps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_vui_parameters_parser.cc", "src/h264_nal_unit_payload_parser.cc"],
  [("range checks", "every Parse* function's bound checks"), ("failed read checks", "every Parse* function's return nullptr")])

p("C14", "Slices use the latest valid parameter sets of the session, per id",
  "For every sequence of NAL units fed to one parsing session, the session holds for each id the most recent successfully parsed sequence, picture and subset sequence parameter set, and each slice is interpreted with the sets held at that moment. Parameter sets of different ids or kinds never affect each other, and a parameter set that fails to parse, or any other unit, leaves the session's sets unchanged. The session's accessors return exactly the set held under the id asked for, or none.",
  ["histories"], "all sequences of NAL units up to a depth over an alphabet of valid and invalid sets with different ids and of slices",
  "State corruption shows only after particular orders (replace, then fail, then use).",
  ["src/h264_nal_unit_payload_parser.cc", "src/h264_bitstream_parser_state.cc"],
  [("storing", "H264NalUnitPayloadParser::ParseNalUnitPayload"), ("lookup", "H264BitstreamParserState::GetSps/GetPps/GetSubsetSps")],
  state=[("sps, pps, subset_sps", "latest valid parameter set per id and kind")])

p("C15", "No input crashes, hangs or corrupts memory",
  "For every byte sequence, given to any parsing entry point (Annex B, length-prefixed, single unit, RTP packet) in any session state, parsing and dumping finish without crash, out-of-bounds access, undefined behaviour, unbounded memory or unbounded time.",
  ["inputs", "histories"], "all inputs of the enumerations of C01-C14 and C18, all short byte strings and mutated structures, under address and undefined-behaviour monitors",
  "Only a few malformed inputs are in the tests.",
  ["src/"], [("all parsers", "src/*.cc"), ("all dumpers", "*State::fdump")])

p("C16", "Parsing is a pure function of the bytes and the session state",
  "Parsing the same units from the same session state always gives the same result, whatever was parsed before in other sessions, where the buffer lies in memory, what surrounds it and what the memory contained; the input bytes are never modified and results stay valid after the input buffer and the session are gone.",
  ["inputs", "histories", "configurations"], "all pairs (history, unit) of the enumeration, each under different buffer placements and memory fills",
  "Dependence on uninitialised memory or on leftovers needs particular preceding calls.",
  ["src/", "include/"], [("state ownership", "H264BitstreamParserState"), ("state structs", "all *State structs")])

p("C17", "All ways of feeding the same NAL units give the same result",
  "A sequence of NAL units gives the same parsed units (headers, payloads, checksums) and the same final parameter sets when fed as an Annex B stream with three- or four-byte start codes, as a length-prefixed stream of any width, unit by unit in escaped or unescaped form, as single-unit RTP packets, or split over several buffers sharing a session.",
  ["inputs", "histories", "configurations"], "all NAL unit sequences up to a depth over an alphabet, times all framings",
  "The framings are separate code paths; tests compare none of them.",
  ["src/h264_bitstream_parser.cc", "src/h264_nal_unit_parser.cc", "src/h264_rtp_parser.cc", "src/h264_rtp_single_parser.cc"],
  [("entry points", "ParseBitstream, ParseBitstreamNALULength, ParseNalUnit, ParseNalUnitUnescaped, ParseRtp")])

p("C18", "RTP payloads yield the NAL units packed in them",
  "For every RTP payload, a single-unit packet yields its unit; an aggregation packet (STAP-A) yields, in order, exactly the units delimited by its size fields, each parsed from its own bytes only; and a fragmentation packet (FU-A) yields the fragment's start, end and reserved bits and type, and parses a payload only for a start fragment, using the reference idc of the packet and the type of the fragment header. Parameter sets carried this way enter the session as usual, and packets whose headers or size fields run past their data are rejected (a single byte left after the last unit of a STAP-A is tolerated).",
  ["inputs", "histories"], "all packets over an alphabet of units, sizes, fragment bits and truncations",
  "Tests hold one packet of each kind.",
  ["src/h264_rtp_parser.cc", "src/h264_rtp_stapa_parser.cc", "src/h264_rtp_fua_parser.cc", "src/h264_rtp_single_parser.cc"],
  [("dispatch", "H264RtpParser::ParseRtp"), ("STAP-A", "H264RtpStapAParser"), ("FU-A", "H264RtpFuAParser")])

p("C19", "The text dump shows every parsed element with its true value",
  "For every parsed NAL unit, the text dump contains each syntax element present in the unit, under its name, with exactly the parsed value (negative values as negative numbers, lists in full and in order); the one-line and the indented forms carry the same tokens, the indented form has one entry per line, indented by two blanks per nesting level, the dump of an RTP packet shows the units it carries in the same way, the dump of a whole stream is that of its units in order, and each output option adds or removes exactly its own entries and nothing else.",
  ["inputs", "configurations"], "all structures of the syntax enumerations, all 2^5 option combinations, both layouts",
  "A wrong format or a missing line shows only for the element and sign concerned; no test reads the dump.",
  ["src/"], [("dump", "*State::fdump"), ("indent", "fdump_indent_level, indent_level_incr")])

p("C20", "Derived values match their definition for every parameter set",
  "For every accepted sequence parameter set, the reported resolution is the cropped luma size defined by the standard, and profile name, chroma array type, frame rate, picture size in map units and the other derived quantities equal their definitions from the syntax elements.",
  ["inputs"], "all combinations of profile and constraint flags, chroma formats, interlacing and cropping boundary values",
  "Formulae mix chroma format, interlacing and offsets; tests check single points.",
  ["src/h264_sps_parser.cc", "src/h264_vui_parameters_parser.cc", "src/h264_common.cc", "src/h264_pps_parser.cc"],
  [("resolution", "SpsDataState::getResolution"), ("profile", "SpsDataState::GetProfileType, profileTypeToString"), ("chroma array type", "SpsDataState::getChromaArrayType"), ("frame rate", "VuiParametersState::getFramerate")])

p("C21", "Offsets, lengths and checksums locate and identify each NAL unit exactly",
  "For every stream, each parsed unit reports the offset of its first byte in the input, its length in bytes as it appears in the input, the number of bytes used by its header and payload syntax, and a checksum that depends only on its own unescaped bytes (the ones' complement of the 32-bit ones' complement sum of their big-endian words, zero-padded; printed into a buffer too small for it, the longest whole-byte prefix that fits); requesting or not requesting any of these never changes anything else in the result.",
  ["inputs", "configurations"], "all streams over an alphabet of units and framings, all 2^5 option combinations; all byte strings up to a bound for the checksum",
  "Accounting is per position and alignment; tests check isolated values.",
  ["src/h264_bitstream_parser.cc", "src/h264_nal_unit_parser.cc", "src/h264_common.cc"],
  [("offset/length", "ParseBitstream"), ("parsed length", "H264NalUnitParser::ParseNalUnit"), ("checksum", "NaluChecksum::GetNaluChecksum")])

p("C22", "Unsupported syntax is always counted and never passed off as parsed",
  "For every input, each time parsing stops at a syntax structure the library does not implement, the process-wide count of unimplemented structures grows, and it grows only then; the unit concerned is reported as unparsed or dropped. A unit whose type has a supported payload counts as parsed exactly when its payload was parsed completely, and units of types without a supported payload never count as failures.",
  ["inputs", "histories"], "all extension flag, unit type and reference-marking combinations that lead to unimplemented structures",
  "The combination of flags that reaches each unimplemented branch is rarely tested.",
  ["src/h264_common.cc", "src/h264_nal_unit_header_parser.cc", "src/h264_nal_unit_payload_parser.cc", "src/h264_prefix_nal_unit_parser.cc", "src/h264_slice_header_in_scalable_extension_parser.cc", "src/h264_ref_pic_list_modification_parser.cc"],
  [("counter", "report_unimplemented / get_unimplemented_count"), ("status", "NalUnitPayloadState::IsPayloadParsed")])

p("C23", "The command-line tool's exit status and listings reflect the whole stream",
  "For every input stream and option combination, the tool exits 0 exactly when every NAL unit was parsed, 1 when some unit was not, 2 when the stream needs unimplemented syntax (in length-prefixed mode, units whose header cannot be read are documented as not counted), and with another, nonzero status for unusable arguments or files; its full dump lists every parsed unit once in order (with its exact bytes on request), and its length listing gives one row per unit and one row per frame with the frame's total size times eight times the frame rate (a slice unit whose plain slice header was not parsed counts as starting at macroblock 0); the listing replaces the contents of exactly the named output file, whatever its name, or goes to standard output.",
  ["inputs", "configurations"], "all streams of an alphabet of units up to a depth, times option combinations",
  "The tool has no tests at all.",
  ["tools/h264nal.cc"], [("exit status", "main"), ("options", "parse_args"), ("length listing", "main, dump_length")])

p("C24", "Input is read completely, and unreadable input or unwritable output is an error",
  "For every file content and every way the operating system may deliver it (any chunking, pipes, standard input), the tool parses exactly the bytes of the file; if opening or reading fails at any point, it reports an error and never presents a partial or empty parse as success. Likewise output that cannot be written completely is reported as an error.",
  ["inputs", "fault_sequences"], "all file sizes around buffer boundaries, all short-read patterns and a fault at every I/O operation",
  "Needs short reads and I/O errors at particular points.",
  ["src/h264_utils.cc", "tools/h264nal.cc"], [("reader", "H264Utils::ReadFile")])

p("C25", "Sessions used from different threads do not disturb each other",
  "For any two parsing jobs working on separate sessions in different threads, every interleaving gives each job exactly the result it gives alone, and the process-wide count of unimplemented structures ends at the sum of both.",
  ["schedules"], "all interleavings of pairs of jobs up to a preemption bound, at every instrumented step",
  "A hidden shared buffer or counter shows only in particular interleavings.",
  ["src/"], [("shared state", "unimplemented counter, any static data in src/*.cc")])

p("C26", "The small-footprint build parses exactly like the full build",
  "The library and the tool build in the small-footprint configuration and, for every input, parse to the same units, elements, session state and status as in the full configuration; only dumping and RTP support are left out.",
  ["configurations", "inputs"], "the two build configurations times the inputs of the syntax and history enumerations",
  "The tests build one configuration only.",
  ["src/", "include/", "tools/h264nal.cc", "CMakeLists.txt"], [("configuration", "SMALL_FOOTPRINT / FDUMP_DEFINE / RTP_DEFINE guards")])

p("C27", "Splitting a stream at resolution changes loses and reorders nothing",
  "For every Annex B stream that the parser accepts, the split tool cuts exactly before the start code of each sequence parameter set whose resolution differs from the previous one, and the produced files, concatenated in order, equal the input byte for byte and are reported with their sizes; without a resolution change, or without a readable input or tool, it writes nothing.",
  ["inputs", "histories"], "all streams of an alphabet of parameter sets with different resolutions, slices and start-code lengths up to a depth",
  "The tool has no tests.",
  ["tools/h264nal-split.py", "tools/h264nal.cc"], [("split points", "find_split_points, find_start_code_offset"), ("writing", "split_file")])

p("C28", "The picture-buffer listing follows the standard's reference marking",
  "For every stream of coded frames with one sequence parameter set and without frame number gaps that the parser accepts, the buffer simulator (h264nal-dpb_parse.py) lists one row per primary coded picture, in order, with its type, frame number, reference status and GOP position; the pictures held for reference before and after each picture are those of the standard's marking process (IDR, sliding window, and every sequence of memory management control operations, with frame_num wrap-around), and the references used by each P or SP picture are its initial reference list after list modification, limited to the active count of the slice or else of its own picture parameter set. It always terminates; a stream that the parser does not accept gives an error and no listing.",
  ["inputs", "histories"], "all reachable reference-marking states of a model up to a depth, with every legal command sequence, list modification and slice type in each",
  "Reference marking is history dependent; the tool has no tests.",
  ["tools/h264nal-dpb_parse.py", "tools/h264nal.cc"], [("marking", "apply_mmco, sliding window, simulate_dpb"), ("reference lists", "init_ref_list, apply_rplm"), ("reading the dump", "parse_frames")])

p("C29", "The conformance summary states for every file exactly what the parser found",
  "For every list of input files, the summary tool (h264nal-conformance.py) writes one row per file in the order given (directories are passed over), whose unit, slice and slice header counts are those of the stream, and whose resolutions, profiles and levels (level 1b included) are the distinct values of all its parameter sets in the order first seen; the parser status is 0 exactly when the parser ran to its end, accepted every unit and reported nothing, names invalid streams and unimplemented syntax as such, and otherwise holds every distinct message of the parser once, in order, with its count; the slice header status is 0 exactly when every slice unit gave a slice header. The closing counts agree with the rows. A parser that cannot be run, is killed, fails or does not end within the time limit is never shown as a clean file.",
  ["inputs", "fault_sequences"], "all streams over an alphabet of units up to a depth, all profile x constraint flag x level combinations, and every way the parser process can fail",
  "The tool has no tests; it depends on the dump of every structure.",
  ["tools/h264nal-conformance.py", "tools/h264nal.cc"], [("row", "analyze_file, parse_sps_lines, format_level"), ("status", "run_h264nal, summarize_errors, get_slice_header_status")])

p("C30", "The end of a payload is recognised at every position",
  "For every buffer and every bit position in it, the payload-end helpers answer by the standard's definition: more_rbsp_data() is true exactly when data precedes the trailing bits, however many zero bytes follow them, and false at the end of the buffer; rbsp_trailing_bits() succeeds exactly on a stop bit followed by zeros to the byte boundary and consumes exactly those; byte_aligned() and get_current_offset() give the position. Asking moves nothing and changes nothing.",
  ["inputs"], "all positions of all buffers up to 3 bytes and of long zero runs",
  "Whether optional parameter-set parts are read hangs on this answer; tests sample a few tails.",
  ["src/h264_common.cc"], [("end of data", "more_rbsp_data"), ("trailing bits", "rbsp_trailing_bits"), ("position", "byte_aligned, get_current_offset")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
