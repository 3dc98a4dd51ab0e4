#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks below and properties.jsonl."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS={
'C13':('points-to and effect analysis over SSA','Covers every exported non-encoding function taking bytes, over all paths. Assumes the library effect table of the tool (which std/third-party functions write through arguments).'),
'C14':('points-to and effect analysis over SSA','Covers every exported Marshal*/Write*/Fill* entry, over all paths. Assumes the library effect table; io.Writer implementations of callers are not analysed.'),
'C15':('points-to and effect analysis over SSA','Covers every package-level variable and function of the repository. Package-level state of dependencies is not analysed.'),
'C11':('path-sensitive error-flow analysis over SSA','Covers every call site returning an error in the repository and all its paths. Trusts callbacks taking an error to report it; two documented idioms are accepted (see evidence assumptions).'),
'C12':('path enumeration (typestate) and error-origin analysis over SSA','Covers every registered payload handler, Reader.Read and the layers below. Trusts go-astits; value checks other than PTS/DTS equality and announced frame sizes are outside.'),
'C01':('abstract interpretation of SSA (intervals and linear relations, calls inlined, widening)','Covers every index, slice, nil, division, shift, make, assertion and panic site reachable from the exported video parsers and DTS extractors, for arbitrary input. Assumes library functions return normally, integers built from sizes stay below 2^57. The second pass of the AVCC parser, which re-reads what the first has checked, is outside.'),
'C02':('abstract interpretation of SSA (intervals and linear relations, calls inlined, widening)','Covers every panic site reachable from the exported audio parsers, for arbitrary input. AudioMuxElement is decoded with a configuration of one program and two layers; the allocation size of a LATM payload is outside.'),
'C03':('abstract interpretation of SSA (intervals and linear relations, calls inlined, widening)','Covers reader initialisation, every payload handler behind Reader.Read, the layers below it, and the private structures, for arbitrary content. go-astits is replaced by an arbitrary demuxer and trusted not to panic.'),
'C04':('abstract interpretation of SSA (intervals and linear relations, calls inlined, widening) and a tail-position rule','Covers fmp4 parts and init, pmp4 presentations and the codec box reader for arbitrary box contents and orders. go-mp4 box walking is replaced by an arbitrary sequence of boxes and trusted; payload callbacks are called only when set.'),
'C06':('abstract interpretation of SSA, bit readers entered once per width and alignment','Covers widths 0 to 64 at each alignment with an arbitrary buffer and position, the Golomb readers from any position, and their termination. The range of values of 56 or more bits is not checked.'),
'C07':('abstract interpretation of SSA (intervals and linear relations to the size of the input) with a rule on counted loops','Covers every make and append reachable from the exported parsers and readers, for arbitrary input; a list may also grow by a constant in a loop that ends by consuming input, or whose count is bounded. Allocations inside go-mp4 and go-astits are outside.'),
'C09':('abstract interpretation of SSA (numbers of units and samples) and bit-provenance dataflow analysis (total sizes)','Covers every success path of the Annex B, AVCC and presentation parsers for the counts; total sizes with up to three start codes anywhere in an arbitrary buffer, two or three AVCC units, three reads of a rewindable reader.'),
'C08':('ranking of loops by abstract interpretation of SSA (lexicographic, linear)','Covers every loop reachable from the exported codec parsers, the MPEG-TS reader, the MP4 readers and the bit readers, for arbitrary input. Loops inside go-astits and go-mp4 are trusted.'),
'C10':('abstract interpretation of SSA with a driver calling the extractor in a loop of any length','Covers every history of calls with arbitrary access units and timestamps, parameter sets replaced by arbitrary ones. H.264 while the reordering depth is learned: the weaker bound of the statement.'),
'C16':('path-sensitive typestate of open boxes over SSA, callees inlined','Covers every path of the three writing entry points. Trusts go-mp4 Writer to close the innermost box; parent table from ISO/IEC 14496-12.'),
'C17':('bit-provenance dataflow analysis of SSA with stand-ins for the MP4 box library, and a type-coverage rule','Covers write-then-read of every codec in initialization segments and presentations: track identifiers, time scales and codec parameters, through a model of which fields each go-mp4 box stores. H.264/H.265 SPS and the AV1 sequence header are fixed (they are parsed on both sides); every other parameter is arbitrary within its field. One track, or four of different codecs.'),
'C25':('bit-provenance dataflow analysis of SSA with stand-ins for the MP4 box library','Covers write-then-read of fragments (up to three samples, two tracks, two parts) and presentations (up to two samples with everything arbitrary, four or more differing in one respect, two interleaved tracks), for arbitrary payloads, durations, composition offsets and flags, through a model of go-mp4 that places boxes and payloads in a file. Longer lists are not covered; durations and payload sizes are assumed below 2^24 in presentations.'),
'C18':('bit-provenance dataflow analysis of SSA with stand-ins for the demuxer and muxer libraries, and a type-coverage rule','Covers write-then-read of each codec of an MPEG-TS stream: signalling, identifiers, parameters, timestamps and units, through models of go-astits. Streams have one track (one of three); access units are small and of fixed shape except KLV, DVB subtitles. KLV without timestamps: signalling only.'),
'C21':('bit-provenance dataflow analysis of SSA with an arbitrary source','Covers up to three reads of any size before the rewind and up to four after it, sources returning any part of what is asked for, and an error along with bytes. The wiring of the MPEG-TS reader to it is outside.'),
'C23':('dataflow analysis of SSA over linear and modular expressions, from any state of the decoder','Covers every history: the state before the first of two timestamps is arbitrary. Timestamps outside of 33 bits are outside.'),
'C05':('bit-provenance dataflow analysis of SSA (loops summarised)','Covers the exported encoders listed in evidence, with arbitrary field values and payloads of any length; lists of elements are of the stated small sizes. That a copy has room is decided by the whole buffer being covered exactly.'),
'C19':('bit-provenance dataflow analysis of SSA (loops summarised)','Covers encode-then-decode of the structures listed in evidence, with arbitrary field values within their widths; lists of elements are of the stated small sizes.'),
'C20':('bit-provenance dataflow analysis of SSA, one path per entry of a constant table','Covers ADTS headers and MPEG-4 audio configurations: every sample rate, channel configuration, channel count and code. Other formats have tables in one direction only (see C24).'),
'C24':('bit-provenance dataflow analysis of SSA, one path per entry of a constant table','Covers H.264, H.265, AV1 and VP9 sizes (dimensions below 2^20, croppings that leave a picture), Opus durations, AC-3, E-AC-3 and MPEG-1/2 audio headers, against formulas and tables restated from the specifications. Frame rates (floating point) are outside.'),
}
NA={
'C22':'what matters is the numeric content of tables computed by arithmetic at initialisation; deciding it means evaluating them, which is running the code',
'C26':'depends on runtime packet positions and on the third-party demuxer; no static argument in reach bounds the skipped bytes',
}
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CHECKS:
        t,n=CHECKS[i]
        checks.append({'property':i,'quick_cmd':f'bin/check {i}','thorough_cmd':f'bin/check {i} --thorough','technique':t,'level':'other','level_note':n})
    else:
        na.append({'property':i,'reason':NA.get(i,'no check built yet')})
json.dump({'version':1,'setup_cmd':'bin/setup','checks':checks,'not_applicable':na},open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
