package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verifsim/core"
)

var flvReal = []string{"container/flv (mixer, muxer, tag parser, demuxer)", "amf (metadata helpers, AMF0)", "packet"}

const flvMaxData = 0xffffff

// amf0Str writes a string without the library, long form if asked to.
func amf0Str(v string, long bool) []byte {
	if long {
		return append(binary.BigEndian.AppendUint32([]byte{12}, uint32(len(v))), v...)
	}
	return append(binary.BigEndian.AppendUint16([]byte{2}, uint16(len(v))), v...)
}

// genMetaPacket draws a metadata packet and says what relaying it outside RTMP
// has to send, false if it has to be refused.
func genMetaPacket(s *core.Sim, ts uint32) (*packet.Packet, []byte, bool) {
	var body []byte
	if s.Chance(850) {
		e := &fenc{s: s}
		e.byte(amf0Str(amf.OnMetaData, s.Chance(100))...)
		e.byte(3)
		for i, n := 0, s.Int(4); i < n; i++ {
			e.str16(fmt.Sprint("key", i))
			e.v0(0)
		}
		e.byte(0, 0, 9)
		body = e.b
	} else {
		name := genStr(s, false)
		if name == amf.SetDataFrame {
			name = "@clearDataFrame"
		}
		body = append(amf0Str(name, s.Chance(300)), s.Bytes(s.Size(60))...)
	}
	p := &packet.Packet{Type: packet.PktMetadata, TimeStamp: ts}
	switch s.Int(8) {
	case 0, 1, 2:
		p.Data = body
		return p, body, true
	case 6:
		p.Data = append(amf0Str(amf.SetDataFrame, true), body...)
		s.Probe("command-as-long-string")
		return p, body, true
	case 7:
		if s.Chance(300) {
			body = nil
		}
	}
	if s.FaultChance(150) { // not metadata
		switch s.Int(4) {
		case 0:
			p.Data = nil
		case 1:
			p.Data = amf0Str(amf.SetDataFrame, s.Chance(300))[:s.Int(15)]
		case 2:
			p.Data = append([]byte{0, 0x40, 0, 0, 0, 0, 0, 0, 0}, body...)
		case 3:
			p.Data = []byte{2, 0xff, 0xff, 'a', 'b'}
		}
		s.Fault("broken-packet")
		return p, nil, false
	}
	p.Data = append(amf0Str(amf.SetDataFrame, false), body...)
	return p, body, true
}

// flvIn is a packet, and what must become of it.
type flvIn struct {
	p    *packet.Packet
	data []byte
	typ  byte
	ok   bool
}

func genFLVIn(s *core.Sim) flvIn {
	ts := s.U32()
	switch s.Pick(10, 10, 5, 2) {
	case 2:
		p, d, ok := genMetaPacket(s, ts)
		return flvIn{p, d, 18, ok}
	case 3:
		if s.Faulty {
			s.Fault("broken-packet")
			return flvIn{p: &packet.Packet{Type: []int{3, 4, -1, 8, 9, 18, 1 << 30}[s.Int(7)], TimeStamp: ts, Data: s.Bytes(20)}}
		}
		fallthrough
	case 0:
		p := &packet.Packet{Type: packet.PktVideo, TimeStamp: ts, Data: s.Bytes(s.Size(2000))}
		return flvIn{p, p.Data, 9, true}
	}
	p := &packet.Packet{Type: packet.PktAudio, TimeStamp: ts, Data: s.Bytes(s.Size(500))}
	return flvIn{p, p.Data, 8, true}
}

func appendTag(b []byte, typ byte, ts uint32, data []byte) []byte {
	n := len(data)
	b = append(b, typ, byte(n>>16), byte(n>>8), byte(n), byte(ts>>16), byte(ts>>8), byte(ts), byte(ts>>24), 0, 0, 0)
	b = append(b, data...)
	return binary.BigEndian.AppendUint32(b, uint32(11+n))
}

// runF01 has several outputs mux a shared set of packets.
func runF01(s *core.Sim) {
	sometimesPreempt(s)
	var in []flvIn
	for i, n := 0, 1+s.Int(12); i < n; i++ {
		in = append(in, genFLVIn(s))
	}
	sess := 1 + s.Int(3)
	if s.Chance(1) { // at the limit of the size field
		n := flvMaxData
		if s.Int(2) == 1 {
			n++
		}
		data := make([]byte, n)
		in = []flvIn{{&packet.Packet{Type: s.Int(2), TimeStamp: 7, Data: data}, data, 9, n == flvMaxData}, in[0]}
		if in[0].p.Type == packet.PktAudio {
			in[0].typ = 8
		}
		s.Probe("tag-size-limit")
		sess = 1
	}
	for i := 0; i < sess; i++ {
		id := i
		s.Go(fmt.Sprint("mixer", id), func() { f01Session(s, id, in) })
	}
	stuck(s, s.Run())
}

func f01Session(s *core.Sim, id int, in []flvIn) {
	where := func(f string, a ...any) string { return fmt.Sprintf("session %d: ", id) + fmt.Sprintf(f, a...) }
	var k *core.Sink
	var out *tap
	var want []byte
	nsink := 0
	open := func() {
		k = s.NewSink(fmt.Sprintf("flv%d-%d", id, nsink))
		nsink++
		k.NoHand = s.Chance(300)
		k.PlanFault(250, 3000)
		out = &tap{s: s, k: k}
		out.all = new([]byte)
		want = want[:0]
	}
	open()
	mx := flv.NewMixer(out)
	n := stretch(s, 2+s.Int(20), 20000)
	for i := 0; i < n; i++ {
		if s.Chance(40) {
			open()
			mx.SetWriter(out)
			s.Probe("output-switched")
		}
		x := in[s.Int(len(in))]
		ts := x.p.TimeStamp
		switch s.Int(3) { // the caller's idea of the timestamp counts
		case 1:
			ts += x.p.Baseline + uint32(s.Int(100000))
		case 2:
			ts = []uint32{0, 1, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}[s.Int(7)]
		}
		out.begin()
		err := mx.Mux(x.p, ts)
		failed := out.check(err, where("packet %d", i))
		s.Ev("mux", uint64(out.wrote))
		if !failed && (err == nil) != x.ok {
			s.Fail("mux-verdict", "%s", where("packet of type %d with %d bytes: %v", x.p.Type, len(x.p.Data), err))
		}
		if !x.ok {
			if out.wrote > 0 {
				s.Fail("refused-packet-written", "%s", where("packet of type %d refused (%v), yet %d bytes were written", x.p.Type, err, out.wrote))
			}
			s.Probe("packet-refused")
			continue
		}
		want = appendTag(want, x.typ, ts, x.data)
		if ts > 0xffffff {
			s.Probe("extended-timestamp")
		}
		if failed {
			if !isPrefix(k.Data, want) {
				s.Fail("written-after-failure", "%s", where("output failed in packet %d and holds something else: %s", i, firstDiff(k.Data, want)))
			}
			// the file is lost; the next one starts afresh
			open()
			mx.SetWriter(out)
			continue
		}
		if len(k.Data) != len(want) || i == n-1 {
			if !bytes.Equal(k.Data, want) {
				s.Fail("tag-bytes", "%s", where("packet %d: %s", i, firstDiff(k.Data, want)))
			}
		}
	}
	if !isPrefix(k.Data, want) || len(k.Data) < len(want) {
		s.Fail("tag-bytes", "%s", where("at the end: %s", firstDiff(k.Data, want)))
	}
	// and a reader finds the tags
	if _, part, err := parseFLVTags(k.Data); err != nil || part {
		s.Fail("tag-bytes", "%s", where("a reader finds cut tags or %v", err))
	}
}

// ---- F02: what a joining player gets first

type f02Sess struct {
	s     *core.Sim
	id    int
	mx    *flv.Mixer
	md    map[string]any // nil: none
	avc   []byte
	aac   []byte
	hasV  bool
	hasA  bool
	media int
}

func runF02(s *core.Sim) {
	sometimesPreempt(s)
	for i, n := 0, 1+s.Int(3); i < n; i++ {
		id := i
		s.Go(fmt.Sprint("mixer", id), func() { (&f02Sess{s: s, id: id}).run() })
	}
	stuck(s, s.Run())
}

func (t *f02Sess) where(f string, a ...any) string {
	return fmt.Sprintf("session %d: ", t.id) + fmt.Sprintf(f, a...)
}

func (t *f02Sess) run() {
	s := t.s
	first := s.NewSink("first")
	t.mx = flv.NewMixer(first)
	for i, n := 0, stretch(s, 2+s.Int(14), 3000); i < n; i++ {
		switch s.Pick(4, 4, 4, 6, 2) {
		case 0:
			t.metadata()
		case 1:
			t.header(packet.PktVideo)
		case 2:
			t.header(packet.PktAudio)
		case 3:
			t.join(i)
		case 4: // ordinary media goes elsewhere and changes nothing
			k := s.NewSink("media")
			k.PlanFault(300, 60)
			t.mx.SetWriter(k)
			t.mx.Mux(&packet.Packet{Type: s.Int(2), Data: s.Bytes(s.Size(50))}, s.U32())
		}
	}
	t.join(99)
}

func (t *f02Sess) metadata() {
	s := t.s
	o, w := genFields(s, 2, func(d int) (any, any) { return genAMF0(s, d) })
	if s.FaultChance(250) {
		if k := s.Int(7); k < 5 {
			o["zz-bad"] = []any{make(chan int), func() {}, struct{}{}, complex(1, 1), make(chan int)}[k]
		} else {
			o[string(make([]byte, []int{0, 65536}[k-5]))] = 1.0
		}
		s.Fault("unencodable-metadata")
		if err := t.mx.SaveMetadata(o); err == nil {
			s.Fail("save-verdict", "%s", t.where("metadata that cannot be encoded was saved"))
		}
		return
	}
	if err := t.mx.SaveMetadata(o); err != nil {
		s.Fail("save-verdict", "%s", t.where("metadata refused: %v", err))
	}
	t.md = w
	if s.Chance(500) { // what the caller does with it later does not matter
		for k := range o {
			o[k] = "changed"
		}
		o["added"] = 1
	}
}

func (t *f02Sess) header(typ int) {
	s := t.s
	p := &packet.Packet{Type: typ, TimeStamp: s.U32(), Baseline: s.U32(), Data: s.Bytes(2 + s.Size(1200))}
	save := t.mx.SaveAVCHeader
	if typ == packet.PktAudio {
		save = t.mx.SaveAACHeader
	}
	if s.FaultChance(200) {
		switch s.Int(20) {
		case 0:
			p.Data = make([]byte, flvMaxData+1)
		default:
			p.Type = []int{3, -1, 9, 77}[s.Int(4)]
		}
		s.Fault("broken-packet")
		if err := save(p); err == nil {
			s.Fail("save-verdict", "%s", t.where("header packet of type %d with %d bytes was saved", p.Type, len(p.Data)))
		}
		return
	}
	data := append([]byte(nil), p.Data...)
	if err := save(p); err != nil {
		s.Fail("save-verdict", "%s", t.where("header of %d bytes refused: %v", len(data), err))
	}
	if typ == packet.PktVideo {
		t.avc, t.hasV = data, true
	} else {
		t.aac, t.hasA = data, true
	}
	if s.Chance(500) {
		s.FillBytes(p.Data)
	}
}

func (t *f02Sess) join(i int) {
	s := t.s
	k := s.NewSink(fmt.Sprintf("player%d-%d", t.id, i))
	k.NoHand = s.Chance(300)
	k.PlanFault(250, 600)
	out := &tap{s: s, k: k, all: new([]byte)}
	t.mx.SetWriter(out)
	err := t.mx.SetFlvHeader()
	failed := out.check(err, t.where("join %d", i))
	s.Ev("join", uint64(out.wrote))
	if !failed && err != nil {
		s.Fail("join-error", "%s", t.where("join %d: %v", i, err))
	}
	b := *out.all
	if failed {
		s.Probe("join-cut")
		if len(b) < 13 {
			return
		}
	}
	v, a, rest, perr := parseFLVHeader(b)
	if perr != nil || v != t.hasV || a != t.hasA {
		s.Fail("file-header", "%s", t.where("join %d: video %v audio %v, want %v %v (%v)", i, v, a, t.hasV, t.hasA, perr))
	}
	tags, part, perr := parseFLVTags(rest)
	if perr != nil || part && !failed {
		s.Fail("join-tags", "%s", t.where("join %d: cut %v, %v", i, part, perr))
	}
	var want []flvTag
	if t.md != nil {
		want = append(want, flvTag{typ: 18})
	}
	if t.hasV {
		want = append(want, flvTag{typ: 9, data: t.avc})
	}
	if t.hasA {
		want = append(want, flvTag{typ: 8, data: t.aac})
	}
	if len(tags) > len(want) || len(tags) < len(want) && !failed {
		s.Fail("join-tags", "%s", t.where("join %d: %d tags, want %d", i, len(tags), len(want)))
	}
	for j, g := range tags {
		w := want[j]
		if g.typ != w.typ || g.ts != 0 || g.stream != 0 {
			s.Fail("join-tags", "%s", t.where("join %d, tag %d: type %d at %d, want type %d at 0", i, j, g.typ, g.ts, w.typ))
		}
		if w.typ != 18 {
			if !bytes.Equal(g.data, w.data) {
				s.Fail("join-tags", "%s", t.where("join %d, tag %d of type %d is not the last header saved: %s", i, j, g.typ, firstDiff(g.data, w.data)))
			}
			continue
		}
		name, r, ok := mini0(g.data)
		md, r, ok2 := mini0(r)
		if !ok || !ok2 || len(r) > 0 || name != amf.OnMetaData {
			s.Fail("join-metadata", "%s", t.where("join %d: metadata tag does not hold the name and one object: %s", i, core.Hex(g.data)))
		}
		if !same0(t.md, md) {
			s.Fail("join-metadata", "%s", t.where("join %d: metadata is not what was saved last: %s", i, core.Hex(g.data)))
		}
	}
	if !failed {
		s.Probe("join-whole")
		s.State(uint64(len(tags)), uint64(k.Writes))
	}
}

// ---- F03: what the tag parser says

func runF03(s *core.Sim) {
	sometimesPreempt(s)
	d := flv.NewDemuxer()
	own := s.Chance(500)
	for i, n := 0, 1+s.Int(3); i < n; i++ {
		id := i
		s.Go(fmt.Sprint("reader", id), func() {
			d := d
			if own {
				d = flv.NewDemuxer()
			}
			var ps []*packet.Packet
			var checks []func()
			for j, m := 0, stretch(s, 1+s.Int(12), 2000); j < m; j++ {
				var old *packet.Packet
				if len(ps) > 0 && s.Chance(200) { // another packet in the same object
					old = ps[s.Int(len(ps))]
					s.Probe("packet-object-reused")
				}
				p, c := f03Packet(s, d, old, fmt.Sprintf("reader %d packet %d", id, j))
				ps, checks = append(ps, p), append(checks, c)
				if s.Chance(300) {
					s.Yield()
				}
			}
			for _, c := range checks { // nothing changed afterwards
				c()
			}
		})
	}
	stuck(s, s.Run())
}

func f03Packet(s *core.Sim, d *flv.Demuxer, old *packet.Packet, where string) (*packet.Packet, func()) {
	p := &packet.Packet{}
	if old != nil {
		p = old
	}
	p.TimeStamp = s.U32()
	n := 5 + s.Size(200)
	if s.FaultChance(300) {
		n = s.Int(6)
		s.Fault("truncated-packet")
	}
	b := s.Bytes(n)
	typ := s.Pick(5, 4, 1, 1)
	p.Type = typ
	switch typ {
	case packet.PktVideo:
		if n > 0 && s.Chance(850) {
			b[0] = byte([]int{1, 2, 1, 2, 1, 3, 4, 5, 0, 15}[s.Int(10)])<<4 | byte([]int{7, 7, 7, 2, 12, 0, 15}[s.Int(7)])
		}
		if n > 1 && s.Chance(850) {
			b[1] = byte(s.Int(4))
		}
	case packet.PktAudio:
		if n > 0 && s.Chance(850) {
			b[0] = byte([]int{10, 10, 10, 2, 2, 0, 11, 14, 15}[s.Int(9)])<<4 | byte(s.Int(16))
		}
		if n > 1 && s.Chance(500) {
			b[1] = byte(s.Int(3))
		}
	case 3:
		p.Type = []int{3, -1, 8, 9, 18, 1000}[s.Int(6)]
	}
	p.Data = b
	orig := append([]byte(nil), b...)
	err := d.Demux(p)
	s.Ev("demux", uint64(n)<<1)
	bad := func(f string, a ...any) {
		s.Fail("tag-header", "%s", where+fmt.Sprintf(" of type %d, %s: ", p.Type, core.Hex(orig))+fmt.Sprintf(f, a...))
	}
	refuse := false
	hdr := 0
	switch p.Type {
	case packet.PktVideo:
		refuse = n < 5
		if !refuse {
			hdr = 1
			if ft := b[0] >> 4; ft == 1 || ft == 2 {
				hdr = 5
			}
		}
	case packet.PktAudio:
		refuse = n < 2
		if !refuse {
			switch b[0] >> 4 {
			case 10:
				hdr = 2
			case 2:
				hdr = 1
			default:
				refuse = true
			}
		}
	case packet.PktMetadata:
	default:
		refuse = true
	}
	if refuse != (err != nil) {
		bad("refused %v (%v), want %v", err != nil, err, refuse)
	}
	if refuse {
		s.Probe("packet-refused")
		if old == nil && (p.Header != nil || p.Media != nil) {
			bad("refused (%v), yet it has a header or media", err)
		}
		return p, func() {}
	}
	kept := *p // what the caller has of it, even if the object is used again
	check := func() {
		p := &kept
		if !bytes.Equal(p.Data, orig) {
			bad("the packet's data changed")
		}
		if !bytes.Equal(p.Media, orig[hdr:]) {
			bad("media is not what follows the header: %s", firstDiff(p.Media, orig[hdr:]))
		}
		switch p.Type {
		case packet.PktVideo:
			h, ok := p.Header.(packet.VideoPacketHeader)
			if !ok {
				bad("no video header")
			}
			ft, cd := orig[0]>>4, orig[0]&15
			at, cts := byte(0), int32(0)
			if hdr == 5 {
				at = orig[1]
				if at == 1 {
					cts = int32(uint32(orig[2])<<24|uint32(orig[3])<<16|uint32(orig[4])<<8) >> 8
				}
			}
			if cts < 0 {
				s.Probe("negative-offset")
			}
			type f struct {
				key, inter, seq, eos, avc bool
				id                        uint8
				cts                       int32
			}
			got := f{h.IsKeyFrame(), h.IsInterFrame(), h.IsSeqHdr(), h.IsEndOfSeq(), h.IsCodecAvc(), h.CodecID(), h.CompositionTime()}
			want := f{ft == 1, ft == 2, ft == 1 && at == 0, ft == 1 && at == 2, cd == 7, cd, cts}
			if got != want {
				bad("header says %+v, want %+v", got, want)
			}
		case packet.PktAudio:
			h, ok := p.Header.(packet.AudioPacketHeader)
			if !ok {
				bad("no audio header")
			}
			sf := orig[0] >> 4
			if h.SoundFormat() != sf || h.IsSoundAAC() != (sf == 10) || h.IsSoundMP3() != (sf == 2) {
				bad("sound format %d, aac %v, mp3 %v", h.SoundFormat(), h.IsSoundAAC(), h.IsSoundMP3())
			}
			if sf == 10 && (h.AACType() != orig[1] || h.IsAACSeqHdr() != (orig[1] == 0)) {
				bad("aac packet type %d, sequence header %v", h.AACType(), h.IsAACSeqHdr())
			}
		}
	}
	check()
	return p, check
}

func init() {
	files := []string{"container/flv/", "amf/metadata.go"}
	reg(&Prop{ID: "F01", Run: runF01, Quick: 300000, Files: files, Real: flvReal, Stub: netStub,
		Rule:   "each run draws a set of packets (media, metadata with and without the RTMP command in either string form, broken ones) that 1-3 FLV outputs mux concurrently, at drawn timestamps, onto files that fail at drawn bytes and are replaced; every byte is compared with an independent tag writer.",
		Faults: []string{"write-error", "torn-write", "broken-packet"}, Probes: []string{"packet-refused", "extended-timestamp", "tag-size-limit", "output-switched", "command-as-long-string", "long-history"}})
	reg(&Prop{ID: "F02", Run: runF02, Quick: 500000, Files: files, Real: flvReal, Stub: netStub,
		Rule:   "each run draws histories of saving metadata and sequence headers (some refused), ordinary media, and players joining at any point, some with failing connections; an independent FLV and AMF0 reader compares each join with the last successfully saved state.",
		Faults: []string{"write-error", "torn-write", "broken-packet", "unencodable-metadata"}, Probes: []string{"join-whole", "join-cut", "long-history"}})
	reg(&Prop{ID: "F03", Run: runF03, Quick: 2400000, Files: files, Real: flvReal, Stub: netStub,
		Rule:   "each run has 1-3 tasks, preempted inside the parser, demux drawn packets of every kind and length through shared or own demuxers; every field is compared with an independent reader at once and again after all later packets.",
		Faults: []string{"truncated-packet"}, Probes: []string{"packet-refused", "negative-offset", "long-history"}})
}
