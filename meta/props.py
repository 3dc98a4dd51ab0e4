#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Parsing video codec data never panics, whatever the bytes",
  "Feeding any byte sequence to the video codec parsers (AV1, H.264, H.265, JPEG, MPEG-1/4 video, VP8, VP9: bitstream framing, parameter sets, headers, random access detection, DTS extraction) returns a value or an error. It never panics: no index or slice out of range, nil dereference, division by zero, failed type assertion or negative allocation size.",
  ["inputs", "histories"], "Every byte sequence of every length, every sequence of access units, and every prior content of the receiving structure.",
  "Tests and committed fuzz corpora sample a few hundred inputs; a missing length check only shows on the one truncated or crafted input that reaches it.",
  ["pkg/codecs/av1", "pkg/codecs/h264", "pkg/codecs/h265", "pkg/codecs/jpeg", "pkg/codecs/mpeg4video", "pkg/codecs/vp8", "pkg/codecs/vp9"],
  [("length checks ahead of unchecked reads", "pkg/bits/read.go HasSpace and its callers"), ("count limits before loops and indexing", "pkg/codecs/h265/sps.go, pkg/codecs/h264/sps.go")])
p("C02", "Parsing audio codec data never panics, whatever the bytes",
  "Feeding any byte sequence to the audio codec parsers (AC-3, E-AC-3, FLAC, G.711, MPEG-1 audio, MPEG-4 audio in all its framings and configurations, Opus) returns a value or an error. It never panics, and neither do the accessors (frame length, channel count, sample count, duration) of a structure such a parser produced.",
  ["inputs"], "Every byte sequence of every length and every prior content of the receiving structure.",
  "Tests sample valid files and a few truncations; table indexes and bit positions depend on reserved values the samples never hold.",
  ["pkg/codecs/ac3", "pkg/codecs/eac3", "pkg/codecs/flac", "pkg/codecs/g711", "pkg/codecs/mpeg1audio", "pkg/codecs/mpeg4audio", "pkg/codecs/opus"],
  [("reserved values rejected before table lookup", "pkg/codecs/mpeg1audio/frame_header.go, pkg/codecs/eac3/sync_info.go"), ("checked bit reads", "pkg/codecs/mpeg4audio")])
p("C03", "Parsing MPEG-TS structures never panics, whatever the stream contains",
  "For any transport stream content, initialising a reader and reading from it, and parsing any MPEG-TS private structure (descriptors, Opus control headers and access units, metadata access unit cells), returns a value or an error and never panics.",
  ["inputs", "histories"], "Every stream content, every PMT and descriptor content, every PES payload, every codec a track can be detected as.",
  "Tests use well formed streams plus a fuzz corpus; descriptor lengths and payload shapes are attacker controlled.",
  ["pkg/formats/mpegts"],
  [("per-codec payload handlers", "pkg/formats/mpegts/reader.go"), ("descriptor parsing", "pkg/formats/mpegts/track.go, pkg/formats/mpegts/substructs")])
p("C04", "Parsing MP4 files never panics, whatever the file contains",
  "For any file content, parsing an initialization segment, a list of fragments, or a non-fragmented presentation (including fetching its sample payloads) returns a value or an error and never panics: boxes that are missing, duplicated, reordered or inconsistent with one another are reported as errors.",
  ["inputs", "histories"], "Every sequence of boxes, with every combination of field values, in any order and multiplicity.",
  "The parsers are state machines over an attacker chosen box sequence; tests cover a handful of sequences.",
  ["pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"],
  [("box handlers keyed by parse state", "pkg/formats/fmp4/init.go, pkg/formats/fmp4/parts.go, pkg/formats/pmp4/presentation.go"), ("codec box reader", "internal/mp4/codec_boxes.go")])
p("C05", "Encoding never writes outside, or short of, the buffer it sized",
  "When a structure computes the size of its encoding and then fills a buffer of that size, the bytes written equal the computed size for every value: encoding never panics by overrunning the buffer and never returns unwritten trailing bytes.",
  ["inputs"], "Every value of every structure that can be encoded, including every number and size of contained units.",
  "The size computation and the filling are two separate pieces of code; tests compare them on a few values.",
  ["pkg/codecs/h264/annexb.go", "pkg/codecs/h264/avcc.go", "pkg/codecs/mpeg4audio", "pkg/codecs/jpeg", "pkg/codecs/opus", "pkg/codecs/flac", "pkg/formats/mpegts/substructs"],
  [("size computation paired with marshaling", "marshalSize and Marshal/marshalTo of each structure")])
p("C06", "Bit-level readers never read past the buffer and advance exactly",
  "A checked bit read either fails without a panic, or returns the requested number of bits, in range, and advances the cursor by exactly that number, never beyond the end of the buffer; the unchecked variants do the same whenever the space was verified beforehand, and variable-length reads consume at least one bit on success.",
  ["inputs"], "Every buffer, every cursor position within it, every requested width from 0 to 64.",
  "Five unit tests on two buffers; the arithmetic has separate branches for each alignment and width.",
  ["pkg/bits"],
  [("space check", "pkg/bits/read.go"), ("cursor arithmetic", "pkg/bits/read.go, pkg/bits/write.go")])
p("C07", "Memory allocated while parsing is bounded by the input size or by limits",
  "Parsing untrusted data never allocates an amount of memory dictated by a number found inside that data: every single allocation is bounded by a constant times the size of the data actually supplied, or by a fixed limit.",
  ["inputs"], "Every input and every declared count, size or length field inside it.",
  "A declared count of four billion does not occur in test files, and an over-allocation does not fail a test.",
  ["pkg/codecs", "pkg/formats/fmp4", "pkg/formats/pmp4", "pkg/formats/mpegts/substructs"],
  [("limits checked before allocation", "pkg/formats/pmp4/presentation.go, pkg/formats/fmp4/parts.go, pkg/codecs/*/sps.go")])
p("C08", "Parsing always terminates: every loop makes progress",
  "Parsing any byte sequence finishes: every loop entered while parsing either advances through the supplied data on every iteration or is bounded by a count that cannot grow, so no input makes a parser spin forever.",
  ["inputs"], "Every input, including zero-length units, zero strides and declared sizes of zero.",
  "A non-terminating input is one specific degenerate value (a zero length, a zero stride); tests do not contain it.",
  ["pkg/bits", "pkg/codecs", "pkg/formats/fmp4", "pkg/formats/pmp4", "pkg/formats/mpegts/substructs"],
  [("loop strides and cursors", "every loop reachable from a parse entry point")])
p("C09", "Documented size limits hold on every successful parse",
  "Whenever parsing an H.264 access unit (Annex B or AVCC) succeeds, the number of contained units and their total size do not exceed the library's published maximums; the prefix recorded by a rewindable reader never exceeds its limit, and no track of a parsed MP4 presentation has more samples than the maximum.",
  ["inputs"], "Every input and every path that ends in success.",
  "Tests check that one oversize input is refused; the limits must hold on every path to success.",
  ["pkg/codecs/h264", "pkg/rewindablereader", "pkg/formats/pmp4/presentation.go"],
  [("limit checks", "pkg/codecs/h264/annexb.go, pkg/codecs/h264/avcc.go, pkg/rewindablereader/reader.go, pkg/formats/pmp4/presentation.go")])
p("C10", "Extracted DTS never exceeds its PTS and never goes backwards",
  "Every successful DTS extraction returns a DTS that is not lower than the one returned by the previous successful extraction, and not greater than the PTS of its access unit, except while the H.264 extractor is still learning the reordering depth of the stream. Otherwise an error is returned and the history used for later extractions is not updated.",
  ["inputs", "histories"], "Every sequence of access units and every sequence of PTS values.",
  "The computation depends on parameter sets, slice headers and history; tests replay a few recorded sequences.",
  ["pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h265/dts_extractor.go"],
  [("final ordering checks", "DTSExtractor.Extract in both packages")])
p("C11", "Failures are reported: no error is dropped or turned into success",
  "When an operation the library performs internally fails (a read, seek or write on a caller supplied stream, the parsing or encoding of a nested structure), the enclosing operation does not report success as if it had worked.",
  ["inputs", "fault_sequences"], "Every call that can fail, on every path, and every point at which a supplied stream can fail.",
  "Tests inject almost no I/O faults and never one per call site.",
  ["pkg", "internal/mp4"],
  [("error propagation", "every call site whose callee returns an error")])
p("C12", "Malformed MPEG-TS payloads are reported and never abort reading",
  "When the payload of one MPEG-TS packet cannot be decoded, the reader reports it through the decode error callback, does not hand the payload to the user, and carries on; an error returned by the user's own data callback, in contrast, is returned from the read call.",
  ["inputs", "histories"], "Every codec handler and every way its payload can fail to decode.",
  "There is a handler per codec, each with several failure exits; tests exercise few of them.",
  ["pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/robust_demuxer.go"],
  [("per-codec on-data handlers", "pkg/formats/mpegts/reader.go")])
p("C13", "Decoding never modifies the bytes the caller passed in",
  "Parsing, detecting and extracting functions treat the caller's buffers as read-only: after the call the input bytes are what they were, whether the call succeeded or failed.",
  ["inputs"], "Every decoding function, every path, every input, including buffers shared between several consumers.",
  "Tests do not compare inputs before and after; in-place edits surface only when a buffer is shared.",
  ["pkg/codecs", "pkg/bits", "pkg/formats/mpegts/substructs"],
  [("no store through input slices", "every parse function taking bytes")])
p("C14", "Encoding never modifies the value being encoded",
  "Encoding a structure leaves the structure and everything the caller supplied with it (units, packets, parameter sets, samples) as it was, so the same value can be encoded again with the same result. A streaming writer's own state and private bookkeeping fields are apart.",
  ["inputs", "schedules"], "Every encodable structure, every path, every content.",
  "Tests encode each value once and compare the bytes, not the value afterwards.",
  ["pkg/codecs", "pkg/formats/mpegts", "pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"],
  [("no store through the receiver or arguments", "every Marshal/marshal function")])
p("C15", "Independent instances share no mutable state",
  "Separate readers, writers, extractors and parsed structures can be used from different goroutines without synchronisation: no operation modifies state that is shared between instances, such as lookup tables, default values or caches.",
  ["schedules"], "Every pair of operations on different instances, under every interleaving.",
  "The race detector only sees interleavings the tests produce, and tests are sequential.",
  ["pkg", "internal/mp4"],
  [("package-level tables are read-only", "every package-level variable")])
p("C16", "Every MP4 box opened is closed exactly once on success",
  "Whenever writing an initialization segment, fragments or a presentation succeeds, every box that was opened has been closed exactly once, innermost first, so the produced file has consistent box sizes; no box is closed that was not opened.",
  ["inputs", "configurations"], "Every path to success in every box-writing function, for every track and codec configuration.",
  "Conditional boxes depend on codec and track content; tests fix a few combinations.",
  ["internal/mp4/codec_boxes.go", "pkg/formats/fmp4", "pkg/formats/pmp4"],
  [("box start/end pairing", "calls opening and closing boxes")])
p("C17", "MP4 writers and readers agree on every codec and field",
  "Every codec that can be written into an MP4 track can be read back as the same codec, and each of its parameters is stored in and restored from the same place: a parameter written into one box field is read from that field and not another.",
  ["inputs", "configurations"], "Every codec and every parameter of it.",
  "Round-trip tests use parameter values for which swapped or missing fields often coincide.",
  ["internal/mp4/codec_boxes.go", "internal/mp4/codec_info.go", "pkg/formats/fmp4/init_track.go", "pkg/formats/pmp4/track.go"],
  [("codec boxes writer", "internal/mp4/codec_boxes.go WriteCodecBoxes"), ("codec boxes reader", "internal/mp4/codec_boxes.go CodecBoxesReader")])
p("C18", "MPEG-TS writers and readers agree on how each codec is signalled",
  "Every codec that can be written into an MPEG-TS stream is announced with a stream type and descriptors that the reader maps back to the same codec, every codec the reader can detect and that can be written has a writer, and every supported codec has a payload handler.",
  ["inputs", "configurations"], "Every codec the format supports.",
  "A codec missing from one of the parallel dispatch tables is only noticed if a test covers that codec in that direction.",
  ["pkg/formats/mpegts/track.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/writer.go"],
  [("detection and announcement", "pkg/formats/mpegts/track.go")])
p("C19", "Encoders and decoders of a structure agree on its bit layout",
  "For every structure with a fixed binary layout that can be both encoded and decoded, each field occupies the same bits in both directions: decoding what was encoded restores every bit of every field that fits its width.",
  ["inputs"], "Every value of every field within its width.",
  "Round-trip tests use a few values, and wrong masks, shifts or widths often agree on small values.",
  ["pkg/codecs/flac", "pkg/codecs/opus", "pkg/codecs/mpeg4audio", "pkg/codecs/mpeg1audio", "pkg/codecs/jpeg", "pkg/formats/mpegts/substructs"],
  [("paired encode/decode functions", "each structure's Marshal and Unmarshal")])
p("C20", "MPEG-4 audio sample rate and channel tables are mutually consistent",
  "The tables with which ADTS headers and MPEG-4 audio configurations translate sample rates and channel configurations into codes agree with those that translate codes back: every sample rate and channel configuration that is encoded without an error is decoded to the same value, every code that is decoded is encoded to the same code, codes mean what the specification says they mean, and only reserved codes are refused.",
  ["inputs"], "Every code and every meaning.",
  "Tests touch a few entries of each table.",
  ["pkg/codecs/mpeg4audio/sample_rates.go", "pkg/codecs/mpeg4audio/adts.go", "pkg/codecs/mpeg4audio/audio_specific_config.go"],
  [("paired tables", "pkg/codecs/mpeg4audio/sample_rates.go")])
p("C21", "A rewindable reader replays everything that was read before the rewind",
  "After a rewind, a rewindable reader returns, in order and exactly once, every byte returned before the rewind, followed by the rest of the source; when the prefix would exceed its limit the reader fails instead of losing bytes.",
  ["inputs", "histories"], "Every sequence of reads with every buffer size and every short read or error of the source.",
  "One test with one buffer size.",
  ["pkg/rewindablereader/reader.go", "pkg/formats/mpegts/reader.go"],
  [("record then replay", "pkg/rewindablereader/reader.go")])
p("C22", "G.711 companding is numerically exact",
  "Decoding any A-law or mu-law byte gives the value ITU-T G.711 assigns to it, and encoding any linear sample picks the code the standard prescribes.",
  ["inputs"], "All 256 codes and all 65536 samples.", "Tests check a handful of samples.",
  ["pkg/codecs/g711"], [("companding tables", "pkg/codecs/g711/alaw.go, pkg/codecs/g711/mulaw.go")])
p("C23", "MPEG-TS timestamps are unwrapped correctly",
  "Decoding a sequence of 33-bit timestamps yields a continuous 64-bit timeline: consecutive values closer than half the period keep their signed distance, across any number of wrap-arounds.",
  ["histories"], "Every sequence of timestamps.", "Tests use a few sequences.",
  ["pkg/formats/mpegts/time_decoder.go"], [("wrap detection", "pkg/formats/mpegts/time_decoder.go")])
p("C24", "Sizes, rates, sample counts and durations follow the codec specifications",
  "For every header, the values derived from its fields equal what the codec specifications define: width and height of H.264, H.265, AV1 and VP9 pictures, frame size, sample rate, bit rate, channels and samples of AC-3, E-AC-3 and MPEG-1/2 audio frames, and the duration of Opus packets. Frame rates, which are floating point numbers, are not included.",
  ["inputs"], "Every header value.", "Tests use a few headers.",
  ["pkg/codecs"], [("accessors", "Width, Height, FrameLen, FrameSize, SampleRate, NumBlocks, ChannelCount, SampleCount, PacketDuration")])
p("C25", "MP4 samples keep payload, timing and flags across write and read",
  "Writing tracks with any list of samples and reading the result back gives the same samples: payload bytes, duration, composition offset and random access flag.",
  ["inputs"], "Every list of samples.", "Tests use a few lists.",
  ["pkg/formats/fmp4", "pkg/formats/pmp4"], [("sample tables", "pkg/formats/pmp4/track.go, pkg/formats/fmp4/part_track.go")])
p("C26", "The MPEG-TS reader resynchronises after lost or corrupt packets",
  "After any run of corrupt, missing or misaligned bytes, reading resumes at the next valid packet, reports the loss, and delivers the following complete units.",
  ["inputs", "fault_sequences"], "Every corruption pattern.", "Tests use a few patterns.",
  ["pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/pre_demuxer.go"], [("robust demuxer", "pkg/formats/mpegts/robust_demuxer.go")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
