#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    return dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                files=files, mech=mech, observe=observe, note=" ".join(note.split()), state=state)

L = [
P("A01", "AMF values arrive as sent, however the connection delivers them", """
Every value of a supported AMF0 or AMF3 type that one side encodes onto a connection, alone or as a batch, is decoded by the other side to an equal value, in the order sent,
however the connection splits, delays or stalls the bytes and however the two sides' work interleaves.
Encoding reports exactly the number of bytes it wrote and decoding consumes exactly the bytes of the value it returns, so that the stream stays in step until its clean end is reported as io.EOF.
A reference written after a value refers to that value at the receiver. A value the format cannot carry (an unsupported type, an AMF0 property name that is empty or longer than 65535 bytes) is refused with an error.""",
  ["inputs", "schedules", "fault_sequences"], "all sequences of supported values (AMF0, AMF3, AMF3 inside AMF0; strings around the length limits, nested objects and arrays, dates, byte arrays, negative and large integers), all ways to split, delay and stall the stream, all interleavings of sender and receiver tasks at statement boundaries",
  "The tests decode single values from a bytes.Buffer that always delivers everything at once; nothing splits a value over two reads or pipelines values.",
  ["amf/amf0.go", "amf/amf3.go", "amf/helper.go"],
  [("full reads of fixed-size fields", "amf decoders"), ("byte counts returned by every encoder", "amf encoders"), ("reference tables of the decoder", "amf decoders")],
  ["Encode, EncodeBatch, Decode, DecodeBatch of the AMF0 and AMF3 codecs", "io.Reader and io.Writer of the connection"],
  "Seeded search over values, splits and schedules against an independent model of the expected values; trusts the model of AMF values in sim/props/amfgen.go."),
P("A02", "A broken AMF stream is reported, never mistaken for a clean end", """
When a connection ends or fails inside an AMF value, decoding reports an error that is not io.EOF, and a connection error is never reported as a clean end; only an end exactly between two values is reported as io.EOF (and as success by batch decoding).
All values that arrived whole before the break are still delivered, equal to what was sent.""",
  ["inputs", "crash_points", "fault_sequences"], "all streams of values (from this library's encoder and from an independent one), every byte position at which the connection ends or fails, every kind of end (close, reset, timeout, unexpected end), all splits of the stream",
  "The tests never cut a stream inside a value; a handler that treats io.EOF inside a value as a clean end passes all of them.",
  ["amf/amf0.go", "amf/amf3.go", "amf/helper.go"],
  [("io.EOF becomes io.ErrUnexpectedEOF once a value has begun", "amf decoders")], ["errors and values of Decode and DecodeBatch"],
  "Seeded search over cut points and error kinds; every byte position of a drawn stream is equally likely."),
P("A03", "Hostile AMF input is contained", """
Whatever bytes a peer sends (at most 64 KiB in one message), decoding them or passing them to the metadata helpers ends with a value or an error, without a panic, in work and memory proportional to the bytes received rather than to the lengths they claim.
Afterwards the same decoder decodes good messages correctly, and other connections are not disturbed at all.""",
  ["inputs", "schedules", "fault_sequences"], "all byte strings up to 64 KiB: damaged encodings, random bytes, deep nesting, dangling references, inflated lengths; registered external handlers; a second connection at any interleaving",
  "The tests feed hand-made correct bytes plus a few wrong markers; panics and allocations by claimed length show only on hostile input.",
  ["amf/amf0.go", "amf/amf3.go", "amf/metadata.go", "amf/helper.go"],
  [("bounds checks of reference indices", "amf decoders"), ("incremental reading of claimed lengths", "amf decoders"), ("reference tables of the decoder", "amf decoders")], ["Decode, AddMetaHeader, DelMetaHeader: result, statements executed, bytes allocated"],
  "Budgets (2000 statements and 1200 bytes of allocation per input byte plus a constant) stand for 'proportional'; inputs above 64 KiB are not explored."),
P("A04", "A failed AMF write is reported and leaves only a prefix", """
If the writer fails at any byte while a value or a batch is being encoded, the encoder reports an error, and what the writer holds then is a prefix of the complete encoding: nothing is written after the failure.
Encoding the same value again onto a working writer yields the complete encoding.""",
  ["inputs", "crash_points", "fault_sequences"], "all values and batches, every byte position at which the writer fails, with and without a partial write, writers that stay broken and writers that recover at once",
  "The tests only write to buffers that cannot fail.",
  ["amf/amf0.go", "amf/amf3.go"],
  [("the error of every write is returned", "amf encoders")], ["errors of Encode*, bytes accepted by the writer"],
  "Map iteration order is pinned per attempt by the simulator so that encodings can be compared byte by byte."),
P("A05", "AMF from other implementations is understood, references included", """
A conforming AMF0 or AMF3 stream from any encoder decodes to the values it denotes: object, array, string, date, XML, byte-array and trait references, dynamic and sealed members, externalizable objects with a registered handler, the flex messages and array collections the library knows, signed integers of every length, and AMF3 inside AMF0.
A reference resolves among the values its own decoder has read, one to nothing of its kind is refused, as is a value of a kind the library does not know, wherever it stands, and later values never change values already returned, whatever the splitting of the stream.""",
  ["inputs", "schedules", "histories"], "all conforming message sequences an independent encoder produces using every marker, reference kind and length form; all splits; several connections at once",
  "The tests decode what the library's own encoder writes, which never uses references, dynamic traits or long forms.",
  ["amf/amf0.go", "amf/amf3.go", "amf/amf3_external.go"],
  [("reference tables", "amf decoders"), ("trait parsing", "amf3 object decoding"), ("external handler registry", "RegisterExternalHandler")], ["values returned by Decode and DecodeBatch"],
  "Trusts the independent encoder in sim/props/amfgen.go, written from the AMF0 and AMF3 specifications."),
P("F01", "FLV output is well-formed tags of exactly the accepted packets", """
An FLV output consists of well-formed tags, one per accepted packet and in order, each with the packet's type, the timestamp given for it (all 32 bits), stream id 0, its data (metadata without the RTMP @setDataFrame announcement in either string form) and the right size of the previous tag; the packets themselves are not modified.
A packet that cannot be written (unknown type, data beyond 24 bits of length, metadata that does not begin with a whole AMF0 string) is refused and adds no byte, and if the output fails, the failure is reported and nothing is written after it.""",
  ["inputs", "histories", "schedules", "fault_sequences"], "all histories of packets, timestamps and output switches over several outputs sharing packet objects, outputs failing at any byte, all interleavings",
  "The tests mux one or two fixed packets into a buffer.",
  ["container/flv/muxer.go", "container/flv/mixer.go", "amf/metadata.go"],
  [("tag construction", "flv muxer"), ("announcement stripped from a copy", "flv muxer")], ["bytes offered to the io.Writer", "errors of Mux", "the packet after Mux"],
  "Byte-exact comparison with an independent tag writer."),
P("F02", "A joining FLV player gets the latest successfully saved headers", """
The header written for a joining FLV player is a valid FLV file header whose audio and video flags tell which sequence headers have been saved, followed by the metadata, the AVC header and the AAC header that were saved last, each at most once, at timestamp 0 and in that order, whatever media went through in between.
A save that is refused, a join whose connection fails, or later changes by the caller to what was saved leave the saved state as it was, and a failing join reports its error.""",
  ["histories", "fault_sequences", "schedules"], "all histories of saves (some refused), media, joins and failing joins on several mixers at once",
  "The tests save once and join once; overwrite, refusal and failure histories are not sampled.",
  ["container/flv/mixer.go", "container/flv/muxer.go"],
  [("header caches replaced only after a successful save", "flv mixer")], ["bytes offered to the io.Writer by SetFlvHeader", "errors of SaveMetadata, SaveAVCHeader, SaveAACHeader, SetFlvHeader"],
  "Compared with an independent FLV and AMF0 reader and a model of the last successful saves."),
P("F03", "FLV tag headers are read truthfully and independently", """
Demultiplexing an FLV audio or video packet yields exactly the frame type, codec, packet kind, signed composition time and sound format its bytes say, and as media exactly the bytes after the tag header; packets too short for their header, of unsupported sound formats or of unknown type are refused and get neither header nor media.
The result does not depend on packets read before or at the same time, is not changed by packets read later, and the packet's data is not modified.""",
  ["inputs", "histories", "schedules"], "all packet contents and lengths for every type, sequences of packets through shared and separate demultiplexers, all interleavings",
  "The tests read a handful of fixed packets, one per parser.",
  ["container/flv/demuxer.go", "container/flv/tag.go"],
  [("a fresh tag per packet", "flv demuxer"), ("length checks", "flv tag parsers")], ["Header and Media of the packet, errors of Demux"],
  "Every field is compared with an independent reader, at once and again after all later packets."),
P("G01", "A late joiner gets headers and whole recent groups of pictures", """
A player joining through the GOP cache receives, in order, the latest metadata, AVC header and AAC header (each only if there is one) and then the cached groups of pictures: the most recent ones up to the configured number, each beginning with its key frame and holding every packet accepted since, in order and unmodified.
Packets before the first key frame are not delivered (a cache of zero groups delivers headers only), and joins neither change the cache nor depend on earlier joins.""",
  ["histories", "schedules", "configurations"], "all histories of headers, key frames, inter frames, audio and metadata, with losses, cache sizes 0 to 16, joins at any point between two writes, several caches sharing packets",
  "The tests write a fixed short sequence and join once.",
  ["gop/cache.go", "gop/gop.go", "gop/array.go", "gop/frame.go"],
  [("ring of groups", "gop array"), ("new group at each key frame", "gop")], ["packets received by the joining writer, errors of Write and SendTo"],
  "Refinement against a list model; the caller's lock is simulated, since the library leaves locking to its user.",
  [("groups", "the cached groups of pictures, oldest first", "gop/array.go"), ("headers", "latest metadata and sequence headers", "gop/cache.go")]),
P("G02", "A failing player hurts nobody else", """
When sending cached packets to a joining player fails at any packet, the error is returned, nothing more is sent to that player, and what it got is a prefix of what it should have got.
Cache, packets and the content and order of every other join, before, after or at the same time, in this cache or in others sharing the packets, are unaffected.""",
  ["fault_sequences", "histories", "schedules"], "all positions and kinds of subscriber failure, all histories of the cache, several players and caches at once",
  "The tests' subscriber never fails.",
  ["gop/cache.go", "gop/gop.go", "gop/array.go", "gop/frame.go"],
  [("sending stops at the first error", "gop send path")], ["packets received by each writer, errors of SendTo"],
  "As G01, with drawn subscriber failures."),
P("G03", "Cached groups are bounded and recover at the next key frame", """
A group of pictures never holds more than 1024 packets: packets beyond that are refused with an error and nothing already cached is lost or reordered, so that a join never delivers more than the three headers plus 1024 packets per configured group.
The next key frame starts a new group that caches again.""",
  ["histories", "schedules", "configurations"], "all histories with groups around and beyond the limit, all cache sizes, joins at any point",
  "No test fills a group.",
  ["gop/gop.go", "gop/array.go", "gop/cache.go"],
  [("packet limit per group", "gop")], ["errors of Write, packets received by joining writers"],
  "Groups are drawn around the limit of 1024 packets, on either side of it."),
P("T01", "TS output reassembles to exactly the accepted media", """
An MPEG-TS output is a sequence of whole 188-byte packets with correct sync, payload flags and adaptation fields from which a strict demultiplexer recovers, in order, every accepted access unit byte for byte, with its stream id, its declared length (absent only for video too long to declare) and a random-access mark exactly on key frames.
A refused packet adds nothing, a failing output is reported and receives nothing after the failure except a prefix of the unit it failed in, and packets given to the muxer are not modified.""",
  ["inputs", "histories", "schedules", "fault_sequences"], "all histories of audio and video units of any size, headers, table refreshes, segment switches, refused packets and outputs failing at any byte, several mixers at once",
  "The tests compare a few fixed packets with recorded bytes; unit sizes around packet boundaries are not sampled.",
  ["container/ts/muxer.go", "container/ts/mixer.go", "container/ts/table/pes.go"],
  [("stuffing and first-packet layout", "ts muxer"), ("PES header", "container/ts/table/pes.go")], ["bytes offered to the io.Writer, errors of Mux"],
  "Independent strict demultiplexer. Known finding: key frames whose PES packet is shorter than 176 bytes carry a second adaptation field (pinned by a test)."),
P("T02", "TS continuity counters never break", """
On every PID of a TS output the continuity counter advances by exactly one, modulo 16, from each packet to the next one with payload, over the whole life of a mixer: across table refreshes, saved headers, segment switches and refused packets.
A failing output may only cost the packets it failed to take.""",
  ["histories", "schedules", "fault_sequences"], "all histories as in T01, long enough for counters to wrap, several mixers at once",
  "The tests look at single calls; counters across calls are not compared.",
  ["container/ts/muxer.go", "container/ts/mixer.go", "container/ts/table/pat.go", "container/ts/table/pmt.go", "container/ts/table/sdt.go"],
  [("a counter per PID", "ts muxer")], ["bytes offered to the io.Writer"],
  "Counters are followed over everything offered to the outputs; after a failed table write the counters of the tables it left out may jump."),
P("T03", "TS timestamps and clock references follow the packets modulo 2^33", """
Every video unit in a TS output carries as DTS its packet's timestamp times 90 and as PTS that plus its signed composition offset times 90, both modulo 2^33 and with correct marker bits; every key frame carries a clock reference equal to its DTS, and other video units carry either the same or none.
An audio unit's PTS is within 10 ms of its packet's timestamp times 90, modulo 2^33.
A Muxer used by itself writes the PTS, DTS and clock reference it is given, modulo 2^33, for any 64-bit values.""",
  ["inputs", "histories", "fault_sequences"], "all 32-bit millisecond timestamps including wraps and jumps, all signed 24-bit composition offsets, all histories",
  "The tests use timestamps near zero; 32-bit overflow, the 33-bit wrap and negative offsets are not sampled.",
  ["container/ts/mixer.go", "container/ts/muxer.go", "container/ts/table/pes.go"],
  [("64-bit clock arithmetic", "ts mixer"), ("timestamp fields", "container/ts/table/pes.go")], ["PTS, DTS and PCR in the bytes offered to the io.Writer"],
  "Modular comparison with an independent calculation."),
P("T04", "TS audio plays at an even pace within 10 ms of its packets", """
While audio packets arrive within 10 ms of where the frame clock expects them, consecutive audio units of one sample rate are spaced by exactly one frame (1024 samples in 90 kHz ticks, rounded down), whatever jitter the packets' millisecond timestamps have.
When a packet's timestamp is more than 10 ms away from the frame clock, the clock restarts from that timestamp, so that no audio unit is ever more than 10 ms away from its packet.""",
  ["histories", "inputs", "fault_sequences"], "all sequences of audio timestamps with jitter, drift, jumps and wraps, up to 2.4 million frames, all sample rates, configuration changes in between",
  "The tests feed two or three timestamps at one rate.",
  ["container/ts/sync.go", "container/ts/mixer.go"],
  [("frame counter and base", "ts audio clock")], ["PTS of audio units in the bytes offered to the io.Writer"],
  "Compared with an independent frame clock; the first unit and the first after a change of rate only have to be within 10 ms."),
P("T05", "TS tables are valid and describe the current program", """
Every table refresh writes one SDT, one PAT and one PMT, each a single current section with correct length and CRC in one packet: the PAT lists program 1 at the PMT's PID, the PMT lists exactly the streams whose sequence headers were accepted (H.264 video, then AAC audio) with the PIDs the media uses, and the SDT names the provider and service saved last.
Names that do not fit are refused and leave the saved ones in place, and refused sequence headers announce nothing.
A Descriptor holds exactly the descriptors accepted, each as long as it declares, and refuses texts that no descriptor can carry; a Muxer used by itself lists them and the streams it is told of.""",
  ["histories", "inputs", "fault_sequences"], "all histories of saved and refused headers and metadata, names of every length, refreshes at any point, outputs failing at any byte",
  "The tests compare tables for one fixed program.",
  ["container/ts/mixer.go", "container/ts/muxer.go", "container/ts/crc32.go", "container/ts/table/pat.go", "container/ts/table/pmt.go", "container/ts/table/sdt.go", "container/ts/table/descriptor.go", "container/ts/table/program.go"],
  [("section and CRC construction", "ts muxer"), ("service descriptor", "container/ts/table/descriptor.go")], ["bytes offered to the io.Writer by SetTsHeader", "errors of SaveMetadata, SaveAVCHeader, SaveAACHeader"],
  "Known findings: with video and audio the PMT names the audio PID as clock reference, and the country availability descriptor has a byte more than it declares (both pinned by tests)."),
P("C01", "H.264 becomes a decodable Annex-B stream after every header change", """
Every accepted AVC packet becomes its NAL units, each behind a start code, led by an access unit delimiter, and a key frame carries the parameter sets of the latest accepted sequence header in front of its slices; its NAL units are framed by lengths of the size that header declares; packets that already are Annex-B pass unchanged.
A new sequence header replaces the parameter sets completely, a packet of another codec or a broken one is refused and changes nothing, and a failing output is reported and got only a prefix of the unit.""",
  ["inputs", "histories", "schedules", "fault_sequences"], "all packets (NAL counts, sizes and types, both framings, damaged lengths), all sequence headers with several parameter sets, length sizes and extensions, all orders, outputs failing at any byte, several converters sharing packets",
  "The tests convert one header and one frame.",
  ["parser/h264/parser.go", "parser/parser.go"],
  [("parameter sets kept from the latest header", "h264 parser"), ("validation before the header replaces the old one", "h264 parser")], ["bytes written and errors of the codec parser"],
  "Independent converter with the same history; AVCC packets whose first NAL unit is one byte long are not claimed."),
P("C02", "AAC frames get ADTS headers of the latest accepted configuration", """
Every accepted raw AAC frame is written as one ADTS frame whose profile, sample-rate index and channel layout are those of the latest accepted configuration and whose length field counts the whole frame; the reported sample rate is that configuration's.
Frames without a configuration, empty frames, frames too long for the 13-bit length and unknown packet kinds are refused; a refused configuration or an MP3 frame in between changes nothing, and a failing output is reported and got only a prefix.""",
  ["inputs", "histories", "schedules", "fault_sequences"], "all frames up to and beyond the length limit, all valid configurations, refused ones in between, all orders, outputs failing at any byte, several converters sharing packets",
  "The tests convert one frame with one configuration.",
  ["parser/aac/parser.go", "parser/parser.go"],
  [("configuration replaced only when accepted", "aac parser"), ("ADTS header fields", "aac parser")], ["bytes written, errors and SampleRate of the codec parser"],
  "Object types 1 to 4 and channel layouts 0 to 7, the ones ADTS can express."),
P("C03", "Hostile media is contained", """
Whatever bytes audio, video and metadata packets hold, demultiplexing, conversion, muxing to FLV and TS, header saving and caching end with a result or an error, without a panic, in work and memory proportional to the packet.
Good media that follows new sequence headers is processed by the same objects as if nothing had happened, the TS output stays in whole packets, and other sessions are undisturbed.""",
  ["inputs", "histories", "schedules"], "all packet contents: damaged headers, NAL lengths and parameter sets, random bytes, any order, next to a good session",
  "The tests feed correct media.",
  ["parser/h264/parser.go", "parser/aac/parser.go", "parser/mp3/parser.go", "parser/parser.go", "container/flv/tag.go", "container/flv/demuxer.go", "container/ts/mixer.go", "gop/cache.go"],
  [("length checks", "parsers and tag readers")], ["results and errors of all media calls, statements executed, bytes allocated"],
  "Budgets (400 statements and 400 bytes per input byte plus a constant) stand for 'proportional'."),
P("S01", "SIP messages are framed and understood on streams and datagrams", """
From a connection carrying any sequence of conforming SIP messages, parsing returns exactly these messages in order, and from a datagram its message: method, request URI, version or status, every header with all its values in order under its case-insensitive full or compact name, the From, To, Contact, CSeq, first Via and Authorization fields, and the body by its Content-Length even if it looks like another message.
This holds for folded headers, lines of any length, CRLF or LF line ends, keep-alive lines in between, any splitting and delay of the stream, and lost, repeated or reordered datagrams; later messages or reuse of the receive buffer do not change messages already returned.""",
  ["inputs", "schedules", "fault_sequences"], "all sequences of conforming messages from a generator covering all methods, status codes, header forms and body lengths, all splits and delays, all datagram faults",
  "The tests parse one message per buffer; pipelining, splitting, folding and compact names on a live connection are not sampled.",
  ["sips/sips.go", "sips/header.go", "sips/header_args.go", "sips/request.go", "sips/user.go", "sips/via.go", "sips/cseq.go", "sips/auth.go", "sips/method.go", "sips/version.go", "sips/status.go"],
  [("line reader and folding", "sips Parse"), ("body by Content-Length", "sips Parse"), ("compact name table", "sips headers")], ["Parse and ParseBytes results, header accessors, payload"],
  "Messages always carry Content-Length. Known finding: the payload begins with the separating empty line (pinned by a test)."),
P("S02", "SIP messages survive construction, relaying and answering", """
A request or response built with the library's constructors, or one parsed from elsewhere, keeps its meaning when it is written out and parsed again, over any number of hops: start line, all header values in order, structured fields, and the body byte for byte under a correct Content-Length.
Messages written one after another onto one connection stay separate.""",
  ["inputs", "histories", "schedules"], "all messages as in S01 plus all that constructors and setters can build, chains of one to four relays with split and delayed connections",
  "The tests compare one written message with recorded text and never parse it again.",
  ["sips/sips.go", "sips/easy.go", "sips/header.go", "sips/header_args.go", "sips/request.go", "sips/user.go", "sips/via.go", "sips/cseq.go", "sips/status.go"],
  [("Bytes of messages and fields", "sips"), ("MakeRequest and MakeResponse", "sips")], ["Bytes, then Parse at the next hop"],
  "Response reasons are the standard ones. Known findings: the separator in the payload, and messages without a body written without their final empty line (pinned by tests)."),
P("S03", "Hostile SIP input is contained", """
Whatever bytes a peer sends (up to 64 KiB per connection), parsing them, reading their fields and writing the result again end without a panic, in work and memory proportional to the bytes received rather than to a claimed Content-Length, and never return content or payload that was not received. A message whose start line is none of SIP (unknown method, other protocol or version, no numeric status) is refused.
A good message is parsed correctly afterwards.""",
  ["inputs", "fault_sequences"], "all byte strings up to 64 KiB, many repetitions of every structure included: damaged messages, delimiter soups, absurd lengths, random bytes; any splitting",
  "The tests parse correct messages and a few wrong start lines.",
  ["sips/sips.go", "sips/header.go", "sips/header_args.go", "sips/request.go", "sips/user.go", "sips/via.go", "sips/cseq.go", "sips/auth.go", "sips/method.go", "sips/version.go", "sips/status.go"],
  [("length checks", "sips parsers")], ["Parse, Bytes and accessors: result, statements executed, bytes allocated"],
  "Budgets (4000 statements and 6000 bytes per input byte plus a constant) stand for 'proportional'."),
P("S04", "Broken SIP connections are visible and lose nothing that arrived", """
Messages that arrived whole before a connection broke are delivered completely. A message cut off by a connection error is reported as an error; one cut off by a close is either reported or delivered with only bytes that were sent and fewer of them than its Content-Length declares, never as complete, and one cut before its length is reported.
No message follows it.""",
  ["crash_points", "fault_sequences", "inputs"], "all sequences of messages, every byte position at which the connection ends, by close or by error, all splits",
  "The tests parse complete messages from memory.",
  ["sips/sips.go"],
  [("read errors returned", "sips Parse")], ["errors and results of Parse"],
  "Known finding: the payload begins with the separating empty line (pinned by a test)."),
P("R01", "Outputs fed the same packets do not influence each other", """
Packets published once and handed to any number of FLV outputs, TS outputs, RTMP relays of metadata and elementary-stream converters leave every one of them unmodified, and each output gets exactly the bytes and verdicts it would get alone, whatever the order in which the outputs work and whichever of them fail.
Metadata announced for RTMP and stripped again is the metadata published.""",
  ["schedules", "histories", "fault_sequences"], "all packet sequences, two to five outputs of all kinds at any interleaving inside the library, any output failing at any byte",
  "The tests have one output per packet and never look at the packet or at a second output afterwards.",
  ["container/flv/muxer.go", "container/ts/mixer.go", "container/ts/muxer.go", "parser/parser.go", "amf/metadata.go", "packet/packet.go"],
  [("muxers work on copies", "flv and ts muxers")], ["bytes of every output, the packets afterwards"],
  "Known finding: keeping a sequence header for TS replaces the media of the caller's packet (pinned by tests); the harness hands it a copy so that everything else is still compared."),
P("R02", "Unrelated sessions never disturb each other", """
Any mix of AMF connections, FLV and TS outputs, SIP connections and caches working at the same time, each with objects of its own, behaves exactly as each of them alone, however their work interleaves and whichever of them meet faults.""",
  ["schedules", "histories", "fault_sequences"], "all mixes of three to seven sessions, all interleavings at statement boundaries inside the library, faults in any of them",
  "The tests run one object at a time; shared package state would not show.",
  ["amf/amf0.go", "container/flv/mixer.go", "container/ts/mixer.go", "container/ts/crc32.go", "parser/parser.go", "gop/cache.go", "sips/sips.go"],
  [("no mutable package state", "all packages")], ["outputs and results of every session"],
  "Preemption at statement boundaries, one task at a time; data races below statement level are out of reach."),
P("R03", "From publisher to players: late joiners start decodable and reach the end", """
Players fed by a GOP cache and live packets over FLV or TS outputs get, whenever they join and rejoin and whatever publishers crashed and returned before, a stream that starts with the current headers (as far as published) and with a key frame, and then every packet of the stream in order, unaltered and with its timestamp.
Once faults stop, every player's session completes up to the last packet published.""",
  ["schedules", "histories", "fault_sequences", "crash_points"], "all histories of publisher crashes and restarts, cache sizes, one to four FLV and TS players joining late, slow, failing and rejoining, all interleavings",
  "No test joins demultiplexer, cache and output; the composition is untested.",
  ["container/flv/demuxer.go", "container/flv/mixer.go", "container/ts/mixer.go", "container/ts/muxer.go", "gop/cache.go", "parser/parser.go", "amf/metadata.go"],
  [("cache replay followed by live packets", "gop cache and mixers")], ["bytes received by every player session"],
  "The server joining the parts (queues, subscriber list, lock) is the harness's; liveness is completion of every session once faults stop."),
]

NA = [
P("P01", "MP3 sample rates are told correctly", """The sample rate reported for an MP3 stream is the one its frame headers declare, for every MPEG version and rate index.""",
  ["inputs"], "all frame headers", "The tests pin a reading of the sample-rate bits that disagrees with the MPEG audio header for most inputs.",
  ["parser/mp3/parser.go"], [("rate table", "mp3 parser")], ["SampleRate of the codec parser"],
  "A pure function of a few header bits: no schedule, time, I/O or fault can influence it, so simulation has nothing to decide; its containment on hostile input is part of C03."),
P("P02", "TS section checksums equal CRC-32/MPEG-2 for every input", """The checksum function used for TS sections computes CRC-32/MPEG-2 of any byte string.""",
  ["inputs"], "all byte strings", "The tests check one or two strings.",
  ["container/ts/crc32.go"], [("crc table", "container/ts/crc32.go")], ["the last four bytes of every section"],
  "A pure function of its input with no state, time, I/O or concurrency; the sections actually written are checked against an independent CRC in T05."),
]

def prop(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))

def main():
    for p in L + NA:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), (p["id"], f)
    with open(V + "/properties.jsonl", "w") as f:
        for p in L + NA:
            f.write(json.dumps(prop(p), ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="bash check.sh build", checks=[], not_applicable=[dict(property=p["id"], reason=p["note"]) for p in NA],
             notes="No hooks in /repo: check.sh builds /repo's working tree with an overlay of instrumented copies (a yield point before every statement, simulated sync, time and map order), see DESIGN.md. Replay: bash check.sh replay FILE. Determinism: bash check.sh determinism.")
    for p in L:
        m["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
            technique="deterministic simulation with fault injection (seeded schedules, inputs and faults; reference-model oracle)", level="exploration", level_note=p["note"]))
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(V + "/MANIFEST.json", "a").write("\n")

main()
