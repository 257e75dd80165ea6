package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verifsim/core"
)

// ---- packets as a publisher sends them

// mpkt is one published packet and what is known about it.
type mpkt struct {
	p    *packet.Packet
	kind string // for messages
	cts  int32
	key  bool
	// what the elementary-stream converter has to make of it
	bad   bool // it must be refused
	nals  []nal
	annex bool   // already in byte-stream form
	avcc  bool   // framed by lengths
	set   []byte // sequence header: the parameter sets in byte-stream form
	size  int    // sequence header: how many bytes a length has
	conf  *aacConf
	raw   []byte // AAC access unit
	seq   bool
	mp3   bool
}

type nal struct {
	typ  byte
	body []byte
}

type aacConf struct{ aot, freq, ch int }

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func videoData(frameType, codec, avcType byte, cts int32, body []byte) []byte {
	c := uint32(cts)
	return append([]byte{frameType<<4 | codec, avcType, byte(c >> 16), byte(c >> 8), byte(c)}, body...)
}

func genCTS(s *core.Sim) int32 {
	switch s.Int(6) {
	case 0, 1:
		return 0
	case 2, 3:
		return int32(s.Int(6)) * 40
	case 4:
		return -int32(s.Int(5)) * 40
	}
	return int32(s.Int(1<<24)) - 1<<23
}

func genNAL(s *core.Sim, typ byte, max int) nal {
	n := 2 + s.Size(max)
	b := s.Bytes(n)
	b[0] = typ | byte(s.Int(4))<<5
	return nal{typ, b}
}

// nalLen says how many bytes the NAL unit lengths of this run have.
func nalLen(s *core.Sim) int {
	n, ok := s.Once["nal length size"]
	if !ok {
		n = 4
		if s.Chance(120) {
			n = 1 + s.Int(2)
			s.Probe("short-nal-lengths")
		}
		if s.Once == nil {
			s.Once = map[string]int{}
		}
		s.Once["nal length size"] = n
	}
	return n
}

func avcc(s *core.Sim, ns []nal) []byte {
	var b []byte
	size := nalLen(s)
	for i := range ns {
		n := &ns[i]
		if size < 3 && len(n.body) >= 1<<(8*size) {
			n.body = n.body[:1<<(8*size)-1]
		}
		for j := size - 1; j >= 0; j-- {
			b = append(b, byte(len(n.body)>>(8*j)))
		}
		b = append(b, n.body...)
	}
	return b
}

// splitAVCC reads the NAL units that lengths of the given size frame.
func splitAVCC(b []byte, size int) (ns []nal, ok bool) {
	for len(b) > 0 {
		if len(b) < size {
			return nil, false
		}
		n := 0
		for _, c := range b[:size] {
			n = n<<8 | int(c)
		}
		b = b[size:]
		if n == 0 || n > len(b) {
			return nil, false
		}
		t := b[0] & 0x1f
		if t != 1 && (t < 5 || t > 9) {
			return nil, false
		}
		ns = append(ns, nal{t, b[:n]})
		b = b[n:]
	}
	return ns, len(ns) > 0
}

var sc = []byte{0, 0, 0, 1}

// genAU draws the NAL units of one access unit.
func genAU(s *core.Sim, key bool, max int) []nal {
	var ns []nal
	if s.Chance(200) {
		ns = append(ns, nal{9, []byte{9, 0xf0}})
	}
	if s.Chance(200) {
		ns = append(ns, genNAL(s, 6, 60))
	}
	if key && s.Chance(250) {
		ns = append(ns, genNAL(s, 7, 60), genNAL(s, 8, 20))
		if s.Chance(300) {
			ns = append(ns, genNAL(s, 8, 20))
		}
	}
	for i, n := 0, 1+s.Int(3); i < n; i++ {
		typ := byte(1)
		if key {
			typ = 5
		}
		ns = append(ns, genNAL(s, typ, max))
		if s.Chance(80) {
			ns = append(ns, genNAL(s, 6, 20))
		}
	}
	if s.Chance(50) { // parameter sets that come too late for this picture
		ns = append(ns, genNAL(s, 7, 30))
	}
	return ns
}

// genVideo draws a coded picture.
func genVideo(s *core.Sim, ts uint32, key bool, max int) *mpkt {
	m := &mpkt{kind: "inter frame", key: key, cts: genCTS(s), avcc: true}
	m.nals = genAU(s, key, max)
	if nalLen(s) == 4 && max >= 400 && s.Chance(8) { // a length that looks like most of a start code
		n := &m.nals[0]
		k := 257 + 256*s.Int(3)
		if s.Chance(60) {
			k = 65537
		}
		if n.typ != 9 {
			n.body = append(n.body[:min(len(n.body), 2)], s.Bytes(k-2)...)
			s.Probe("length-like-a-start-code")
		}
	}
	body := avcc(s, m.nals)
	if s.Chance(60) {
		m.annex, m.avcc = true, false
		body = nil
		for _, n := range m.nals {
			body = append(append(body, sc...), n.body...)
		}
		m.raw = body
	}
	ft := byte(2)
	if key {
		ft, m.kind = 1, "key frame"
	}
	m.p = &packet.Packet{Type: packet.PktVideo, TimeStamp: ts, Data: videoData(ft, 7, 1, m.cts, body)}
	return m
}

// genBadVideo draws a coded picture whose framing is broken.
func genBadVideo(s *core.Sim, ts uint32, key bool) *mpkt {
	m := &mpkt{kind: "broken frame", key: key, bad: true}
	ns := genAU(s, key, 100)
	var body []byte
	ft, codec, typ := byte(2), byte(7), byte(1)
	if key {
		ft = 1
	}
	how := s.Int(7)
	m.avcc = how < 4
	switch how {
	case 0: // cut inside a NAL unit or its length
		body = avcc(s, ns)
		ends := map[int]bool{0: true}
		at := 0
		for _, n := range ns {
			at += nalLen(s) + len(n.body)
			ends[at] = true
		}
		c := 1 + s.Int(len(body)-1)
		for ends[c] {
			c--
		}
		if c == 0 {
			c = 1
		}
		body = body[:c]
	case 1: // a unit of length zero
		ns = append(ns, nal{1, nil})
		body = avcc(s, ns)
		if s.Chance(500) {
			body = append(body, avcc(s, []nal{genNAL(s, 1, 50)})...)
		}
	case 2: // a length beyond the packet
		body = avcc(s, ns)
		body = append(body, 0xff, 0xff, 0xff, byte(s.Int(256)), 1, 2, 3)
	case 3: // a unit type that cannot be carried
		t := []byte{0, 2, 3, 4, 10, 11, 12, 13, 19, 24, 28, 31}[s.Int(12)]
		k := s.Int(len(ns) + 1)
		ns = append(ns[:k:k], append([]nal{genNAL(s, t, 30)}, ns[k:]...)...)
		body = avcc(s, ns)
	case 4:
		body = nil
		typ = byte(1 + s.Int(2)) // nothing, or the end of the sequence
	case 5: // another codec
		body = avcc(s, ns)
		codec = []byte{1, 2, 3, 4, 5, 6, 8, 12, 15, 0}[s.Int(10)]
		typ = byte(s.Int(2))
		m.kind = "frame of another codec"
	case 6: // a command to the player
		m.kind = "command frame"
		m.p = &packet.Packet{Type: packet.PktVideo, TimeStamp: ts, Data: []byte{0x57, byte(s.Int(2)), 0, 0, 0}[:5]}
		return m
	}
	m.p = &packet.Packet{Type: packet.PktVideo, TimeStamp: ts, Data: videoData(ft, codec, typ, 0, body)}
	return m
}

// genAVCHeader draws a decoder configuration record.
func genAVCHeader(s *core.Sim, ts uint32) *mpkt {
	m := &mpkt{kind: "AVC sequence header", key: true, seq: true}
	m.size = nalLen(s)
	b := []byte{1, 0x64, 0, 0x1f, 0xfc | byte(m.size-1)}
	nsps, npps := 1, 1
	if s.Chance(250) {
		nsps = 1 + s.Int(4)
	}
	if s.Chance(300) {
		npps = 1 + s.Int(4)
	}
	if s.Chance(20) { // as many as there may be
		if s.Chance(500) {
			nsps = 15 + s.Int(17)
		} else {
			npps = []int{15, 16, 31, 32, 33, 63, 64, 128, 255}[s.Int(9)]
		}
		s.Probe("many-parameter-sets")
	}
	b = append(b, 0xe0|byte(nsps))
	put := func(typ byte, max int) {
		n := genNAL(s, typ, min(max, 2000/(nsps+npps)))
		if s.Chance(60) && nsps+npps < 10 { // a length that needs both of its bytes
			n.body = append(n.body, s.Bytes(256+s.Int(1200))...)
			s.Probe("long-parameter-set")
		}
		b = binary.BigEndian.AppendUint16(b, uint16(len(n.body)))
		b = append(b, n.body...)
		m.set = append(append(m.set, sc...), n.body...)
	}
	for i := 0; i < nsps; i++ {
		put(7, 300)
	}
	b = append(b, byte(npps))
	for i := 0; i < npps; i++ {
		put(8, 100)
	}
	need := len(b)
	if s.Chance(250) { // what High profiles append
		b = append(b, 0xfd, 0xf8, 0xf8, 0)
	}
	if s.FaultChance(150) {
		if s.Chance(800) {
			b = b[:s.Int(need)]
		} else { // a parameter set without a byte
			b = b[:6]
			empty := s.Int(nsps + npps)
			for i := 0; i < nsps+npps; i++ {
				if i == nsps {
					b = append(b, byte(npps))
				}
				n := []byte{7, 1, 2, 3}
				if i >= nsps {
					n[0] = 8
				}
				if i == empty {
					n = nil
				}
				b = append(append(b, 0, byte(len(n))), n...)
			}
			s.Probe("empty-parameter-set")
		}
		m.bad = true
		m.set = nil
		m.kind = "cut AVC sequence header"
	}
	m.p = &packet.Packet{Type: packet.PktVideo, TimeStamp: ts, Data: videoData(1, 7, 0, 0, b)}
	return m
}

func genAACHeader(s *core.Sim, ts uint32) *mpkt {
	c := &aacConf{1 + s.Int(4), s.Int(13), s.Int(8)}
	if s.Int(2) == 0 {
		c = &aacConf{2, 3 + s.Int(2), 2}
	}
	m := &mpkt{kind: "AAC sequence header", seq: true, conf: c}
	b := []byte{byte(c.aot)<<3 | byte(c.freq)>>1, byte(c.freq)<<7 | byte(c.ch)<<3}
	if s.Chance(250) {
		b = append(b, s.Bytes(s.Int(4))...)
	}
	if s.FaultChance(150) {
		m.bad, m.conf, m.kind = true, nil, "bad AAC sequence header"
		if s.Chance(500) {
			b = b[:s.Int(2)]
		} else if s.Chance(300) { // more channels than an ADTS header can tell
			b[1] |= 0x40
			s.Probe("channels-beyond-adts")
		} else {
			b[0], b[1] = byte(c.aot)<<3|7, 0x80|byte(s.Int(8))<<3
		}
	}
	m.p = &packet.Packet{Type: packet.PktAudio, TimeStamp: ts, Data: append([]byte{0xaf, 0}, b...)}
	return m
}

const adtsMax = 0x1fff

func genAudio(s *core.Sim, ts uint32, max int) *mpkt {
	m := &mpkt{kind: "AAC frame"}
	n := 1 + s.Size(max)
	if s.Chance(8) {
		n = adtsMax - 7 - s.Int(3)
		s.Probe("adts-frame-at-limit")
	}
	if s.FaultChance(20) {
		n, m.bad = adtsMax-6+s.Int(3), true
	}
	if s.FaultChance(20) {
		n, m.bad = 0, true
	}
	m.raw = s.Bytes(n)
	t := byte(1)
	if s.FaultChance(20) {
		t, m.bad = byte(2+s.Int(250)), true
	}
	m.p = &packet.Packet{Type: packet.PktAudio, TimeStamp: ts, Data: append([]byte{0xaf, t}, m.raw...)}
	return m
}

// genMP3 draws a packet of the other audio codec: it is looked at and gives no
// output.
func genMP3(s *core.Sim, ts uint32) *mpkt {
	b := append([]byte{0x2f}, s.Bytes(3+s.Int(30))...)
	m := &mpkt{kind: "MP3 frame", mp3: true}
	if b[3]>>1&3 == 3 { // no such rate
		b[3] &^= 6
	}
	s.Probe("mp3-frame")
	m.p = &packet.Packet{Type: packet.PktAudio, TimeStamp: ts, Data: b}
	return m
}

// genForeignAudio draws a packet of an audio codec that nobody converts.
func genForeignAudio(s *core.Sim, ts uint32) *mpkt {
	m := &mpkt{kind: "frame of another audio codec", bad: true}
	f := []byte{0, 1, 3, 4, 5, 6, 7, 8, 9, 11, 14, 15}[s.Int(12)]
	m.p = &packet.Packet{Type: packet.PktAudio, TimeStamp: ts, Data: append([]byte{f<<4 | byte(s.Int(16)), byte(s.Int(3))}, s.Bytes(s.Int(40))...)}
	return m
}

// codecModel is what an elementary-stream converter has to remember and do.
type codecModel struct {
	sets []byte
	size int // of a length, 0: no header yet
	conf *aacConf
	any  bool // some AAC packet has been seen
}

// convert says what the packet becomes; ok is false if it must be refused.
func (c *codecModel) convert(m *mpkt) (out []byte, ok bool) {
	if m.p.Type == packet.PktAudio && (m.p.Data[0]>>4 == 10 || m.p.Data[0]>>4 == 2) {
		c.any = true
	}
	if m.bad && !m.avcc {
		return nil, false
	}
	if m.mp3 {
		return nil, true
	}
	switch {
	case m.set != nil:
		c.sets = append([]byte(nil), m.set...)
		c.size = m.size
		return nil, true
	case m.conf != nil:
		x := *m.conf
		c.conf = &x
		return nil, true
	case m.p.Type == packet.PktAudio:
		if c.conf == nil {
			return nil, false
		}
		return append(adts(*c.conf, len(m.raw)), m.raw...), true
	case m.annex:
		return m.raw, true
	}
	size := c.size
	if size == 0 {
		size = 4 // what everyone uses
	}
	ns, ok := splitAVCC(m.p.Data[5:], size)
	if !ok {
		return nil, false
	}
	out = []byte{0, 0, 0, 1, 9, 0xf0}
	var inband []byte
	first := true
	for _, n := range ns {
		switch n.typ {
		case 7, 8:
			inband = append(append(inband, sc...), n.body...)
		case 5:
			if first {
				first = false
				if inband != nil {
					out = append(out, inband...)
				} else {
					out = append(out, c.sets...)
				}
			}
			fallthrough
		case 1, 6:
			out = append(append(out, sc...), n.body...)
		}
	}
	return out, true
}

// adts writes the header bit by bit from the standard.
func adts(c aacConf, n int) []byte {
	var b []byte
	var acc uint64
	bits := 0
	put := func(v uint64, w int) {
		for i := w - 1; i >= 0; i-- {
			acc = acc<<1 | v>>i&1
			if bits++; bits%8 == 0 {
				b = append(b, byte(acc))
			}
		}
	}
	put(0xfff, 12) // syncword
	put(0, 1)      // MPEG-4
	put(0, 2)      // layer
	put(1, 1)      // no CRC
	put(uint64(c.aot-1), 2)
	put(uint64(c.freq), 4)
	put(0, 1)
	put(uint64(c.ch), 3)
	put(0, 4)
	put(uint64(n+7), 13)
	put(0x7ff, 11) // variable rate
	put(0, 2)      // one block
	return b
}

// demux fills in the parsed header the way a user of the library does.
func demux(s *core.Sim, d *flv.Demuxer, m *mpkt) bool {
	err := d.Demux(m.p)
	if err != nil {
		if m.bad {
			return false
		}
		s.Fail("demux-error", "%s of %d bytes refused: %v", m.kind, len(m.p.Data), err)
	}
	return true
}

// clonePkt copies a packet deeply enough to compare later.
func clonePkt(p *packet.Packet) *packet.Packet {
	q := *p
	q.Data = bytes.Clone(p.Data)
	q.Media = bytes.Clone(p.Media) // an empty one stays one
	return &q
}

func pktDiff(p, q *packet.Packet) string {
	switch {
	case p == nil:
		return "there is none"
	case p.Type != q.Type:
		return "the type changed"
	case p.TimeStamp != q.TimeStamp:
		return "the timestamp changed"
	case p.Baseline != q.Baseline || p.StreamID != q.StreamID:
		return "the baseline or stream id changed"
	case p.Header != q.Header:
		return "the header changed"
	case !bytes.Equal(p.Data, q.Data):
		return "the data changed: " + firstDiff(p.Data, q.Data)
	case !bytes.Equal(p.Media, q.Media):
		return "the media changed: " + firstDiff(p.Media, q.Media)
	}
	return ""
}

// ---- reading FLV

type flvTag struct {
	typ    byte
	ts     uint32
	stream uint32
	data   []byte
}

// parseFLVTags reads tags; part is true if the last one is cut.
func parseFLVTags(b []byte) (tags []flvTag, part bool, err error) {
	for len(b) > 0 {
		if len(b) < 11 {
			return tags, true, nil
		}
		n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		t := flvTag{typ: b[0], ts: uint32(b[7])<<24 | uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6]), stream: uint32(b[8])<<16 | uint32(b[9])<<8 | uint32(b[10])}
		if len(b) < 15+n {
			return tags, true, nil
		}
		t.data = b[11 : 11+n]
		if p := binary.BigEndian.Uint32(b[11+n:]); p != uint32(11+n) {
			return tags, false, fmt.Errorf("tag %d of %d bytes is followed by size %d, want %d", len(tags), n, p, 11+n)
		}
		tags = append(tags, t)
		b = b[15+n:]
	}
	return tags, false, nil
}

// parseFLVHeader reads the file header and the zero that follows it.
func parseFLVHeader(b []byte) (video, audio bool, rest []byte, err error) {
	if len(b) < 13 {
		return false, false, nil, fmt.Errorf("the file header is cut: %d bytes", len(b))
	}
	if string(b[:4]) != "FLV\x01" || b[4]&^5 != 0 || binary.BigEndian.Uint32(b[5:]) != 9 || binary.BigEndian.Uint32(b[9:]) != 0 {
		return false, false, nil, fmt.Errorf("not a file header: %x", b[:13])
	}
	return b[4]&1 != 0, b[4]&4 != 0, b[13:], nil
}

// mini0 reads one AMF0 value without the library.
func mini0(b []byte) (v any, rest []byte, ok bool) {
	if len(b) < 1 {
		return
	}
	m := b[0]
	b = b[1:]
	str := func(w int) (string, bool) {
		if len(b) < w {
			return "", false
		}
		n := 0
		for _, x := range b[:w] {
			n = n<<8 | int(x)
		}
		if len(b) < w+n {
			return "", false
		}
		x := string(b[w : w+n])
		b = b[w+n:]
		return x, true
	}
	obj := func() (map[string]any, bool) {
		o := map[string]any{}
		for {
			k, ok := str(2)
			if !ok {
				return nil, false
			}
			if k == "" {
				if len(b) < 1 || b[0] != 9 {
					return nil, false
				}
				b = b[1:]
				return o, true
			}
			v, r, ok := mini0(b)
			if !ok {
				return nil, false
			}
			o[k], b = v, r
		}
	}
	switch m {
	case 0, 11:
		if len(b) < 8 {
			return
		}
		v, b = math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:]
		if m == 11 {
			if len(b) < 2 {
				return
			}
			b = b[2:]
		}
		return v, b, true
	case 1:
		if len(b) < 1 {
			return
		}
		return b[0] != 0, b[1:], true
	case 2:
		v, ok = str(2)
		return v, b, ok
	case 12, 15:
		v, ok = str(4)
		return v, b, ok
	case 3:
		o, ok := obj()
		return o, b, ok
	case 8:
		if len(b) < 4 {
			return
		}
		b = b[4:]
		o, ok := obj()
		return o, b, ok
	case 16:
		t, ok := str(2)
		if !ok {
			return nil, nil, false
		}
		o, ok := obj()
		return typed{t, o}, b, ok
	case 5, 6, 13:
		return nil, b, true
	case 10:
		if len(b) < 4 {
			return
		}
		n := binary.BigEndian.Uint32(b)
		b = b[4:]
		l := []any{}
		for ; n > 0; n-- {
			v, r, ok := mini0(b)
			if !ok {
				return nil, nil, false
			}
			l, b = append(l, v), r
		}
		return l, b, true
	}
	return
}

// same0 compares two values in the harness's own form.
func same0(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y) && (x != 0 || math.Signbit(x) == math.Signbit(y))
	case typed:
		y, ok := b.(typed)
		return ok && x.typ == y.typ && same0(x.obj, y.obj)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same0(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !same0(x[k], v) {
				return false
			}
		}
		return true
	}
	return a == b
}

// ---- reading transport streams

type pesPkt struct {
	pid     int
	sid     byte
	pts     int64
	dts     int64 // -1: none
	pcr     int64 // base, -1: none
	pcrExt  int
	random  bool
	payload []byte
	length  int // declared
	open    bool
	at      int // index of the first packet
}

type psiSec struct {
	pid int
	sec []byte // without CRC
	at  int
}

type tsItem struct {
	pes *pesPkt
	psi *psiSec
}

// tsDemux reads whole transport packets the strict way.
type tsDemux struct {
	items []tsItem
	cur   map[int]*pesPkt
	cc    map[int]byte
	n     int
	ccBad string
	// short key frames keep their stuffing where the payload should start
	stuffed int
}

func newTSDemux() *tsDemux { return &tsDemux{cur: map[int]*pesPkt{}, cc: map[int]byte{}} }

func stamp(b []byte, prefix byte) (int64, error) {
	if b[0]>>4 != prefix || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("malformed timestamp %x, want prefix %x", b[:5], prefix)
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), nil
}

func (d *tsDemux) packet(b []byte) error {
	at := d.n
	d.n++
	if len(b) != 188 || b[0] != 0x47 {
		return fmt.Errorf("packet %d: %d bytes starting with %02x", at, len(b), b[0])
	}
	if b[1]&0x80 != 0 || b[3]&0xc0 != 0 {
		return fmt.Errorf("packet %d: error or scrambling bits set", at)
	}
	pusi := b[1]&0x40 != 0
	pid := int(b[1]&0x1f)<<8 | int(b[2])
	afc := b[3] >> 4 & 3
	cc := b[3] & 15
	if afc&1 == 0 {
		return fmt.Errorf("packet %d: no payload", at)
	}
	if last, ok := d.cc[pid]; ok && cc != (last+1)&15 && d.ccBad == "" {
		d.ccBad = fmt.Sprintf("packet %d: continuity counter of PID %#x is %d after %d", at, pid, cc, last)
	}
	d.cc[pid] = cc
	pl := b[4:]
	pcr, ext, random := int64(-1), 0, false
	if afc&2 != 0 {
		n := int(pl[0])
		if n > 182 {
			return fmt.Errorf("packet %d: adaptation field of %d bytes", at, n)
		}
		af := pl[1 : 1+n]
		pl = pl[1+n:]
		if n > 0 {
			random = af[0]&0x40 != 0
			rest := af[1:]
			if af[0]&0x10 != 0 {
				if len(rest) < 6 {
					return fmt.Errorf("packet %d: adaptation field too short for a clock reference", at)
				}
				pcr = int64(rest[0])<<25 | int64(rest[1])<<17 | int64(rest[2])<<9 | int64(rest[3])<<1 | int64(rest[4]>>7)
				ext = int(rest[4]&1)<<8 | int(rest[5])
				rest = rest[6:]
			}
			if af[0]&^0x50 != 0 {
				return fmt.Errorf("packet %d: unexpected adaptation flags %02x", at, af[0])
			}
			for _, x := range rest {
				if x != 0xff {
					return fmt.Errorf("packet %d: stuffing byte %02x", at, x)
				}
			}
		}
	}
	switch {
	case pid == 0 || pid == 0x11 || pid == 0x1001:
		if !pusi {
			return fmt.Errorf("packet %d: table packet without a start", at)
		}
		if pl[0] != 0 || len(pl) < 4 {
			return fmt.Errorf("packet %d: pointer field %d", at, pl[0])
		}
		pl = pl[1:]
		n := 3 + (int(pl[1]&15)<<8 | int(pl[2]))
		if n > len(pl) || n < 12 {
			return fmt.Errorf("packet %d: section of %d bytes in %d", at, n, len(pl))
		}
		if c := crcMPEG(pl[:n]); c != 0 {
			return fmt.Errorf("packet %d: wrong section CRC on PID %#x", at, pid)
		}
		for _, x := range pl[n:] {
			if x != 0xff {
				return fmt.Errorf("packet %d: byte %02x after the section", at, x)
			}
		}
		d.items = append(d.items, tsItem{psi: &psiSec{pid, append([]byte(nil), pl[:n-4]...), at}})
		return nil
	case pid != 0x100 && pid != 0x101:
		return fmt.Errorf("packet %d: unknown PID %#x", at, pid)
	}
	if !pusi {
		c := d.cur[pid]
		if c == nil {
			return fmt.Errorf("packet %d: continues nothing on PID %#x", at, pid)
		}
		if pcr >= 0 {
			return fmt.Errorf("packet %d: clock reference inside a PES packet", at)
		}
		c.payload = append(c.payload, pl...)
		return nil
	}
	if afc&2 != 0 && b[4] == 7 && !bytes.HasPrefix(pl, []byte{0, 0, 1}) {
		if n := int(pl[0]); n < len(pl) && bytes.HasPrefix(pl[1+n:], []byte{0, 0, 1}) {
			ok := n == 0 || pl[1] == 0
			for i := 2; i <= n; i++ {
				ok = ok && pl[i] == 0xff
			}
			if ok {
				d.stuffed++
				pl = pl[1+n:]
			}
		}
	}
	if len(pl) < 14 || !bytes.HasPrefix(pl, []byte{0, 0, 1}) {
		return fmt.Errorf("packet %d: no PES start on PID %#x: %s", at, pid, core.Hex(pl))
	}
	q := &pesPkt{pid: pid, sid: pl[3], dts: -1, pcr: pcr, pcrExt: ext, random: random, length: int(pl[4])<<8 | int(pl[5]), at: at}
	if pl[6]&0xc0 != 0x80 || pl[6]&0x30 != 0 {
		return fmt.Errorf("packet %d: PES flags %02x", at, pl[6])
	}
	hl := int(pl[8])
	if len(pl) < 9+hl {
		return fmt.Errorf("packet %d: PES header of %d bytes is cut", at, hl)
	}
	var err error
	switch pl[7] {
	case 0x80:
		if hl != 5 {
			return fmt.Errorf("packet %d: PES header length %d with a PTS only", at, hl)
		}
		q.pts, err = stamp(pl[9:], 2)
	case 0xc0:
		if hl != 10 {
			return fmt.Errorf("packet %d: PES header length %d with PTS and DTS", at, hl)
		}
		if q.pts, err = stamp(pl[9:], 3); err == nil {
			q.dts, err = stamp(pl[14:], 1)
		}
	default:
		return fmt.Errorf("packet %d: PES flags %02x", at, pl[7])
	}
	if err != nil {
		return fmt.Errorf("packet %d: %v", at, err)
	}
	if q.length != 0 {
		q.length -= 3 + hl
	} else {
		q.length = -1
	}
	q.payload = append([]byte(nil), pl[9+hl:]...)
	d.cur[pid] = q
	d.items = append(d.items, tsItem{pes: q})
	return nil
}

// crcMPEG is the MPEG-2 section CRC, bit by bit; 0 over a section with its CRC.
func crcMPEG(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return c
}
