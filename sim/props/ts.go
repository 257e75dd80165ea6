package props

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"

	"verifsim/core"
)

var tsReal = []string{"container/ts (mixer, muxer, tables, audio clock)", "parser, parser/h264, parser/aac", "container/flv (demuxer)", "packet"}

// tap records what a library call offers to a writer, and whether it goes on
// writing after an error.
type tap struct {
	s      *core.Sim
	k      *core.Sink
	all    *[]byte // everything offered, across writers
	failed bool
	after  bool
	wrote  int
}

func (t *tap) Write(p []byte) (int, error) {
	if t.failed {
		t.after = true
	}
	*t.all = append(*t.all, p...)
	t.wrote += len(p)
	n, err := t.k.Write(p)
	if err != nil {
		t.failed = true
	}
	return n, err
}

func (t *tap) begin() { t.failed, t.after, t.wrote = false, false, 0 }

// check judges one call that writes. It returns whether the call failed.
func (t *tap) check(err error, what string) bool {
	if t.failed && err == nil {
		t.s.Fail("failure-not-reported", "%s: the output failed, no error reported", what)
	}
	if t.after {
		t.s.Fail("written-after-failure", "%s: it went on writing after the output failed", what)
	}
	return t.failed
}

// ---- expectations

type tsWant struct {
	table          int // 1 SDT, 2 PAT, 3 PMT, 0 media
	must           bool
	cut            bool // the output failed inside it
	video          bool
	dts, pts       int64
	key            bool
	payload        []byte
	provider, serv string
	named          bool
	hasV, hasA     bool
	what           string
	audioIn        int64 // clock of the packet, 90 kHz
	rate           int
	refused        bool
	expect         int64 // where the audio clock has to be, -1: anywhere near
	psiBreakBefore bool
	direct         bool   // written by a Muxer of its own
	desc           []byte // descriptors of the service
	audioFirst     bool
}

const mod33 = int64(1) << 33

const (
	chkContent = 1 << iota
	chkCC
	chkStamps
	chkAudio
	chkPSI
	chkStuff
)

type tsOpts struct {
	check   int
	audio   bool // mostly audio
	tables  bool // mostly tables
	faults  bool
	maxBody int
	steps   int
	big     bool // some units too long to declare
}

type tsSess struct {
	s        *core.Sim
	id       int
	o        tsOpts
	mx       *ts.Mixer
	out      *tap
	all      []byte
	want     []tsWant
	m        codecModel
	d        *flv.Demuxer
	hasV     bool
	hasA     bool
	named    bool
	prov     string
	serv     string
	nsink    int
	clock    float64 // ms
	aclock   float64
	prevOut  int64 // last audio output clock, -1: none
	rate     int
	broken   bool
	scrub    bool
	psiBreak bool
}

func (t *tsSess) where(f string, a ...any) string {
	return fmt.Sprintf("session %d: ", t.id) + fmt.Sprintf(f, a...)
}

func (t *tsSess) newSink() {
	s := t.s
	k := s.NewSink(fmt.Sprintf("ts%d-%d", t.id, t.nsink))
	k.NoHand = s.Chance(300)
	if s.Chance(200) {
		k.Delay = int64(1+s.Int(50)) * 1e6
	}
	t.nsink++
	t.out = &tap{s: s, k: k, all: &t.all}
	if t.o.faults {
		k.PlanFault(300, 4000)
	}
}

func newTSSess(s *core.Sim, id int, o tsOpts) *tsSess {
	t := &tsSess{s: s, id: id, o: o, d: flv.NewDemuxer(), prevOut: -1}
	t.newSink()
	t.mx = ts.NewMixer(t.out)
	t.scrub = s.Chance(700)
	t.clock = []float64{0, 0, 1000, 95443000, 4294960000, 2147483000}[s.Int(6)]
	if s.Chance(200) {
		t.clock = float64(s.U32())
	}
	t.aclock = t.clock
	return t
}

func (t *tsSess) run() {
	s := t.s
	n := 3 + s.Int(t.o.steps)
	w := []int{30, 30, 3, 3, 4, 2, 3}
	if t.o.audio {
		w = []int{5, 60, 1, 2, 1, 1, 1}
	}
	if t.o.tables {
		w = []int{10, 10, 12, 12, 25, 20, 4}
	}
	switch s.Pick(60, 10, 10, 10, 10) { // some histories are one-sided
	case 1: // few things happen, again and again
		for i := range w {
			if s.Int(3) > 0 {
				w[i] = 0
			}
		}
		w[s.Int(len(w))] = 10
	case 2: // tables are repeated before every picture
		w = []int{10, 3, 1, 1, 40, 1, 2}
		n += s.Int(40)
	case 3:
		w = []int{20, 20, 20, 20, 20, 20, 20}
	case 4: // a long ordinary stretch
		n += s.Int(100)
	}
	n = stretch(s, n, 5000)
	big := t.o.big && s.Chance(60)
	if s.Chance(700) { // the usual opening
		if s.Chance(500) {
			t.metadata()
		}
		t.header(genAVCHeader(s, t.ts32(t.clock)))
		t.header(genAACHeader(s, t.ts32(t.clock)))
		t.tables()
	}
	for i := 0; i < n; i++ {
		switch s.Pick(w...) {
		case 0:
			max := t.o.maxBody
			if big && s.Chance(300) {
				max = []int{70000, 40000, 140000}[s.Int(3)]
			}
			t.video(max)
		case 1:
			t.audio()
		case 2:
			t.header(genAVCHeader(s, t.ts32(t.clock)))
		case 3:
			t.header(genAACHeader(s, t.ts32(t.clock)))
		case 4:
			t.tables()
		case 5:
			t.metadata()
		case 6: // next segment
			t.newSink()
			t.mx.SetWriter(t.out)
			s.Probe("segment")
			if s.Chance(700) {
				t.tables()
			}
		}
		if t.broken { // a failed output is replaced, or has recovered
			t.broken = false
			if t.out.k.FailAt >= 0 || s.Chance(300) {
				t.newSink()
				t.mx.SetWriter(t.out)
			}
		}
	}
	t.verify()
}

// long sends hours of audio without a gap: the clock is told of every frame, only
// some are written. The jitter of the stamps stays below 10 ms, so the clock never
// has a reason to start again.
func (t *tsSess) long() {
	s := t.s
	n := []int{67000, 67000, 140000, 600000, 1200000, 2400000}[s.Pick(30, 20, 20, 10, 10, 10)]
	t.header(genAACHeader(s, t.ts32(t.clock)))
	if t.m.conf == nil {
		return
	}
	rate := aacRates[t.m.conf.freq]
	m := genAudio(s, 0, 64)
	if !t.demux(m) || m.bad || len(m.p.Data) > 1000 {
		return
	}
	body := append([]byte(nil), m.p.Data...)
	inc := int64(90000 * 1024 / rate)
	base, jit := int64(t.ts32(t.clock)>>1)*90, uint64(s.U32())|1
	every := 1 + s.Int(2000)
	s.Extend(1)
	spread := uint64(1 + s.Int(9))
	var w tsWant
	s.Budget(int64(n)*400+4<<20, "following the clock of audio frames", func() {
		for i, next := 0, 0; i < n; i++ {
			jit = jit*6364136223846793005 + 1442695040888963407
			at := base + int64(i)*inc // where the clock is
			ms := (at/90 + int64(jit>>33%(spread)))
			if i == 0 {
				ms = base / 90
			}
			if err := t.mx.Update(m.p, uint32(ms), 0); err != nil {
				s.Fail("clock-update", "%s", t.where("audio clock update reports %v", err))
			}
			if i < next && i < n-2 {
				continue
			}
			next = i + int(jit>>40)%every
			w.audioIn, w.expect = ms*90, at
			t.all = t.all[:0]
			t.out.begin()
			copy(m.p.Data, body)
			if err := t.mx.Mux(m.p); err != nil {
				s.Fail("mux-error", "%s", t.where("audio frame %d refused: %v", i, err))
			}
			d := newTSDemux()
			for k := 0; k+188 <= len(t.all); k += 188 {
				if err := d.packet(t.all[k : k+188]); err != nil {
					s.Fail("ts-syntax", "%s", t.where("frame %d: %v", i, err))
				}
			}
			if len(d.items) != 1 || d.items[0].pes == nil {
				s.Fail("ts-order", "%s", t.where("frame %d of audio makes %d units", i, len(d.items)))
			}
			t.prevOut = at
			t.checkAudio(&w, d.items[0].pes)
		}
	})
	s.Probe("audio-for-hours")
}

// direct uses a Muxer without a Mixer: any stamps, any media, tables one by one.
func (t *tsSess) direct() {
	s := t.s
	mx := ts.NewMuxer()
	n := 3 + s.Int(t.o.steps)
	base := int64(s.U32())<<1 | int64(s.Int(2))
	at := func() int64 {
		switch s.Int(6) {
		case 0:
			return []int64{0, 1, -1, mod33 - 1, mod33, mod33 + 1, 1 << 32, 1<<32 - 1, -90, 1 << 40}[s.Int(10)]
		case 1:
			return int64(s.U32())<<1 | int64(s.Int(2))
		}
		base += int64(s.Int(9000))
		return base
	}
	w := []int{30, 30, 5, 5, 5, 2}
	if t.o.tables {
		w = []int{10, 10, 30, 15, 30, 4}
	}
	for i := 0; i < n; i++ {
		t.out.begin()
		var err error
		var b []byte
		want := tsWant{must: true, direct: true}
		k := s.Pick(w...)
		switch k {
		case 0, 1:
			m := genAudio(s, 0, 40)
			if k == 0 {
				m = genVideo(s, 0, s.Chance(300), 40)
			}
			if !t.demux(m) {
				continue
			}
			m.p.Media = s.Bytes(s.Size(t.o.maxBody))
			want.video, want.key, want.payload, want.what = k == 0, k == 0 && m.key, m.p.Media, m.kind+" by itself"
			want.dts = at()
			want.pts = want.dts
			if s.Chance(500) {
				want.pts = at()
			}
			before := clonePkt(m.p)
			err = mx.Mux(m.p, want.dts, want.pts, t.out)
			if d := pktDiff(m.p, before); d != "" {
				s.Fail("packet-modified", "%s", t.where("%s: %s", want.what, d))
			}
		case 2:
			want.table, want.what = 1, "SDT"
			d := table.NewDescriptor()
			for j := s.Int(4); j > 0; j-- {
				t.descriptor(d, &want)
			}
			b = mx.SDT(d.GetBuffer())
		case 3:
			want.table, want.what = 2, "PAT"
			b = mx.PAT()
		case 4:
			want.table, want.what = 3, "PMT"
			ty := [][]int{nil, {packet.PktVideo}, {packet.PktAudio}, {packet.PktVideo, packet.PktAudio}, {packet.PktAudio, packet.PktVideo}}[s.Int(5)]
			for _, x := range ty {
				want.hasV = want.hasV || x == packet.PktVideo
				want.hasA = want.hasA || x == packet.PktAudio
			}
			want.audioFirst = len(ty) > 1 && ty[0] == packet.PktAudio
			b = mx.PMT(ty...)
		case 5:
			if s.Chance(500) {
				t.newSink()
			} else if err := mx.Mux(&packet.Packet{Type: packet.PktMetadata, Media: s.Bytes(20)}, 0, 0, t.out); err == nil || t.out.wrote > 0 {
				s.Fail("mux-error", "%s", t.where("a metadata packet in a transport stream: %v, %d bytes written", err, t.out.wrote))
			}
			continue
		}
		if k >= 2 {
			b = append([]byte(nil), b...)
			_, err = t.out.Write(b)
		}
		failed := t.out.check(err, t.where("writing %s", want.what))
		if err != nil && !failed {
			s.Fail("mux-error", "%s", t.where("%s with %d bytes of media refused: %v", want.what, len(want.payload), err))
		}
		want.cut = failed
		t.want = append(t.want, want)
		if failed && (t.out.k.FailAt >= 0 || s.Chance(300)) {
			t.newSink()
		}
	}
	s.Probe("muxer-by-itself")
	t.verify()
}

// descriptor adds one to d, as long as they fit in a section of one packet.
func (t *tsSess) descriptor(d *table.Descriptor, w *tsWant) {
	s := t.s
	room := 163 - d.GetBuffer().Len()
	text := func() string {
		if s.Chance(100) {
			return string(bytes.Repeat([]byte{'n'}, 100+s.Int(200)))
		}
		return svcNames[s.Int(len(svcNames))]
	}
	before := d.GetBuffer().Len()
	var err error
	var want []byte
	a, b := text(), text()
	kind := s.Int(3)
	if s.Chance(20) { // the longest that a descriptor can hold
		a = string(bytes.Repeat([]byte{'m'}, 255))
		if kind == 0 {
			a = a[:252-len(b)%200]
			b = b[:len(b)%200]
		}
		s.Probe("descriptor-at-limit")
	}
	alone := func(n int) bool { // it does not fit into one packet
		if n <= room || n > 257 {
			return false
		}
		d, before = table.NewDescriptor(), 0
		return true
	}
	single := false
	switch kind {
	case 0:
		single = alone(5 + len(a) + len(b))
		ty := byte(s.Int(256))
		err = d.Service(ty, a, b)
		want = append([]byte{0x48, byte(3 + len(a) + len(b)), ty, byte(len(a))}, a...)
		want = append(append(want, byte(len(b))), b...)
	case 1:
		single = alone(2 + len(a))
		err = d.NetworkName(a)
		want = append([]byte{0x40, byte(len(a))}, a...)
	case 2:
		if room < 7 {
			return
		}
		code := uint32(s.Int(1 << 12))
		f := s.Int(2)
		err = d.CountryAvailability(f == 1, code)
		// the finding on file: one byte more than declared
		want = []byte{0x49, 4, byte(f) << 7, 0, 0, byte(code >> 8), byte(code)}
		if t.o.check&chkPSI != 0 && err == nil && bytes.Equal(d.GetBuffer().Bytes()[before:], want) {
			s.Finding("country-availability-length", "%s", t.where("the country availability descriptor %x declares 4 bytes and has 5", want))
		} else {
			want = []byte{0x49, 4, byte(f) << 7, 0, byte(code >> 8), byte(code)}
		}
	}
	if refuse := len(want) > 257; refuse != (err != nil) {
		s.Fail("descriptor-verdict", "%s", t.where("a descriptor with texts of %d and %d bytes: %v", len(a), len(b), err))
	} else if refuse {
		s.Probe("descriptor-too-long")
		if d.GetBuffer().Len() != before {
			s.Fail("descriptor-verdict", "%s", t.where("a refused descriptor left %d bytes", d.GetBuffer().Len()-before))
		}
		return
	}
	if single {
		if !bytes.Equal(d.GetBuffer().Bytes(), want) {
			s.Fail("descriptor", "%s", t.where("a descriptor with texts of %d and %d bytes: %s", len(a), len(b), firstDiff(d.GetBuffer().Bytes(), want)))
		}
		return
	}
	w.desc = append(w.desc, want...)
}

func (t *tsSess) ts32(f float64) uint32 { return uint32(uint64(f)) }

func (t *tsSess) video(max int) {
	s := t.s
	switch s.Pick(90, 3, 3) {
	case 1:
		t.clock += float64(s.Int(100000))
		s.Fault("clock-jump")
	case 2:
		t.clock = float64(s.U32())
		s.Fault("clock-jump")
	}
	t.clock += float64(10 + s.Int(40))
	if t.clock >= 1<<32 {
		t.clock -= 1 << 32
		s.Probe("millisecond-clock-wraps")
	}
	key := s.Chance(300)
	var m *mpkt
	switch {
	case s.FaultChance(60):
		m = genBadVideo(s, t.ts32(t.clock), key)
		s.Fault("broken-packet")
	case s.Chance(30):
		m = genAVCHeader(s, t.ts32(t.clock)) // a header among the media
	default:
		m = genVideo(s, t.ts32(t.clock), key, max)
	}
	t.mux(m)
}

func (t *tsSess) audio() {
	s := t.s
	inc := 23.22
	if t.m.conf != nil {
		inc = 1024000 / float64(aacRates[t.m.conf.freq])
	}
	switch s.Pick(200, 4, 2) {
	case 1:
		t.aclock += float64(s.Int(3000)) - 1000
		s.Fault("clock-jump")
	case 2:
		t.aclock = float64(s.U32())
		s.Fault("clock-jump")
	}
	t.aclock += inc
	for t.aclock < 0 {
		t.aclock += 1 << 32
	}
	if t.aclock >= 1<<32 {
		t.aclock -= 1 << 32
		s.Probe("millisecond-clock-wraps")
	}
	at := t.aclock
	if s.Chance(300) {
		at += float64(s.Int(24) - 12)
		if at < 0 || at >= 1<<32 {
			at = t.aclock
		}
	}
	t.mux(genAudio(s, t.ts32(at), 400))
}

func (t *tsSess) demux(m *mpkt) bool { return demux(t.s, t.d, m) }

// mux sends one media packet through the mixer.
func (t *tsSess) mux(m *mpkt) {
	s := t.s
	if !t.demux(m) {
		return
	}
	dts := int64(m.p.TimeStamp) * 90
	pts := dts
	avcTs := uint32(0)
	if m.p.Type == packet.PktVideo {
		avcTs = uint32(m.p.Header.(packet.VideoPacketHeader).CompositionTime())
		pts += int64(m.cts) * 90
	}
	knows := t.m.any // a sample rate can be told
	err := t.mx.Update(m.p, m.p.TimeStamp, avcTs)
	w := tsWant{must: true, video: m.p.Type == packet.PktVideo, dts: dts, pts: pts, key: m.key, expect: -1, audioIn: dts, what: m.kind}
	if !w.video {
		if err == nil != knows {
			s.Fail("clock-update", "%s", t.where("audio clock update reports %v", err))
		}
		if err != nil {
			return
		}
		rate := 96000 // what is assumed until a configuration tells
		if t.m.conf != nil {
			rate = aacRates[t.m.conf.freq]
		}
		w.rate = rate
	} else if err != nil {
		s.Fail("clock-update", "%s", t.where("video clock update fails: %v", err))
	}
	out, ok := t.m.convert(m)
	before := clonePkt(m.p)
	t.out.begin()
	err = t.mx.Mux(m.p)
	failed := t.out.check(err, t.where("muxing %s", m.kind))
	s.Ev("mux", uint64(t.out.wrote))
	if d := pktDiff(m.p, before); d != "" {
		s.Fail("packet-modified", "%s", t.where("muxing %s: %s", m.kind, d))
	}
	if t.scrub {
		defer s.FillBytes(m.p.Data)
	}
	switch {
	case failed:
		t.broken = true
		w.cut = true
	case !ok:
		if err == nil {
			s.Fail("broken-packet-accepted", "%s", t.where("%s was accepted", m.kind))
		}
		if t.out.wrote > 0 {
			s.Fail("refused-packet-written", "%s", t.where("%s was refused (%v), yet %d bytes were written", m.kind, err, t.out.wrote))
		}
		s.Probe("packet-refused")
		if !w.video { // the clock ticks for every packet, whatever becomes of it
			w.refused = true
			t.want = append(t.want, w)
		}
		return
	case err != nil:
		s.Fail("mux-error", "%s", t.where("%s with %d bytes of media refused: %v", m.kind, len(out), err))
	}
	w.payload = out
	w.psiBreakBefore = t.psiBreak
	t.psiBreak = false
	t.want = append(t.want, w)
}

// tick follows the audio clock from unit to unit: it runs on by one frame per
// packet while it is within 10 ms of the packets, and starts again from the
// packet if it is not. What it is at first, and after a change of rate, shows in
// the output only.
func (t *tsSess) tick(w *tsWant) {
	if t.prevOut < 0 || w.rate != t.rate {
		w.expect = -1
		t.rate, t.prevOut = w.rate, -1
		return
	}
	w.expect = t.prevOut + int64(90000*1024/w.rate)
	if d := w.expect - w.audioIn; d > 900 || d < -900 {
		w.expect = w.audioIn
		t.s.Probe("audio-clock-resync")
	} else {
		t.s.Probe("audio-clock-running")
		if d == 900 || d == -900 {
			t.s.Probe("audio-clock-at-limit")
		}
	}
	t.prevOut = w.expect
}

// header hands a sequence header to the mixer for keeping.
func (t *tsSess) header(m *mpkt) {
	s := t.s
	if !t.demux(m) {
		return
	}
	t.out.begin()
	var err error
	video := m.p.Type == packet.PktVideo
	if video {
		err = t.mx.SaveAVCHeader(m.p)
	} else {
		err = t.mx.SaveAACHeader(m.p)
	}
	if t.out.wrote > 0 {
		s.Fail("header-written", "%s", t.where("keeping %s wrote %d bytes", m.kind, t.out.wrote))
	}
	_, ok := t.m.convert(m)
	if ok != (err == nil) {
		s.Fail("header-verdict", "%s", t.where("keeping %s: %v", m.kind, err))
	}
	if ok && video {
		t.hasV = true
	} else if ok {
		t.hasA = true
	} else {
		s.Fault("broken-packet")
	}
	if t.scrub {
		s.FillBytes(m.p.Data)
	}
}

var svcNames = []string{"", "a", "Provider X", "频道", "goav"}

func (t *tsSess) metadata() {
	s := t.s
	md := amf.Object{"width": 1280.0}
	name := func(k string) string {
		switch s.Int(6) {
		case 0:
			return "undefined" // left out
		case 1:
			md[k] = 5.0 // not a name
			return "undefined"
		case 2:
			v := string(bytes.Repeat([]byte{'n'}, 60+s.Int(130)))
			md[k] = v
			return v
		}
		v := svcNames[s.Int(len(svcNames))]
		md[k] = v
		return v
	}
	p, q := name("Provider"), name("Service")
	fits := len(p)+len(q) <= 158
	err := t.mx.SaveMetadata(md)
	if fits != (err == nil) {
		s.Fail("metadata-verdict", "%s", t.where("saving names of %d and %d bytes: %v", len(p), len(q), err))
	}
	if fits {
		t.named, t.prov, t.serv = true, p, q
	} else {
		s.Probe("names-too-long")
	}
}

func (t *tsSess) tables() {
	s := t.s
	t.out.begin()
	err := t.mx.SetTsHeader()
	failed := t.out.check(err, t.where("writing the tables"))
	if !failed && err != nil {
		s.Fail("tables-error", "%s", t.where("writing the tables: %v", err))
	}
	for i := 1; i <= 3; i++ {
		t.want = append(t.want, tsWant{table: i, must: !failed, named: t.named, provider: t.prov, serv: t.serv, hasV: t.hasV, hasA: t.hasA,
			what: "table", psiBreakBefore: t.psiBreak && i == 1})
	}
	t.psiBreak = failed
	if failed {
		t.broken = true
	}
	s.Ev("tables", 0)
}

// verify reads back everything the mixer offered to its writers.
func (t *tsSess) verify() {
	s := t.s
	if len(t.all)%188 != 0 {
		s.Fail("ts-syntax", "%s", t.where("%d bytes are no whole number of packets", len(t.all)))
	}
	d := newTSDemux()
	for i := 0; i < len(t.all); i += 188 {
		if err := d.packet(t.all[i : i+188]); err != nil {
			s.Fail("ts-syntax", "%s", t.where("%v", err))
		}
	}
	if d.stuffed > 0 && t.o.check&chkStuff != 0 {
		s.Finding("short-key-frame-stuffing", "%s", t.where("%d key frames of fewer than 176 bytes carry their stuffing as a second adaptation field where the payload starts", d.stuffed))
	}
	// match what is there with what has to be
	at := 0
	cc := map[int]byte{}
	next := func() *tsItem {
		if at >= len(d.items) {
			return nil
		}
		return &d.items[at]
	}
	for i := range t.want {
		w := &t.want[i]
		it := next()
		if w.table > 0 {
			if it == nil || it.psi == nil || it.psi.pid != []int{0, 0x11, 0, 0x1001}[w.table] {
				if !w.must {
					continue
				}
				s.Fail("ts-order", "%s", t.where("table %d is missing at item %d", w.table, at))
			}
			at++
			if t.o.check&chkPSI != 0 {
				t.checkTable(w, it.psi)
			}
			continue
		}
		if w.refused {
			t.tick(w)
			continue
		}
		if it == nil || it.pes == nil || it.pes.pid == 0x100 != w.video {
			s.Fail("ts-order", "%s", t.where("item %d: %s with %d bytes of media is missing", at, w.what, len(w.payload)))
		}
		at++
		if !w.video && !w.direct {
			t.tick(w)
		}
		t.checkPES(w, it.pes)
	}
	if at != len(d.items) {
		s.Fail("ts-order", "%s", t.where("%d items after the last one expected", len(d.items)-at))
	}
	if t.o.check&chkCC != 0 {
		t.checkCC(d, cc)
	}
	s.Probe("stream-verified")
}

// checkCC follows the continuity counters over everything offered. A call that
// writes the tables and fails may leave out tables it has counted.
func (t *tsSess) checkCC(d *tsDemux, cc map[int]byte) {
	s := t.s
	breaks := map[int]bool{}
	// packet index at which table counters may jump
	at, tables := 0, 0
	for i := range t.want {
		w := &t.want[i]
		if w.refused {
			continue
		}
		if at >= len(d.items) {
			break
		}
		if w.psiBreakBefore {
			if it := d.items[at]; it.psi != nil {
				breaks[it.psi.at] = true
			} else {
				breaks[it.pes.at] = true
			}
		}
		it := d.items[at]
		if w.table > 0 && (it.psi == nil || it.psi.pid != []int{0, 0x11, 0, 0x1001}[w.table]) {
			continue
		}
		at++
		tables++
	}
	for i := 0; i < len(t.all)/188; i++ {
		b := t.all[i*188:]
		pid := int(b[1]&0x1f)<<8 | int(b[2])
		c := b[3] & 15
		if breaks[i] {
			delete(cc, 0)
			delete(cc, 0x11)
			delete(cc, 0x1001)
		}
		if last, ok := cc[pid]; ok && c != (last+1)&15 {
			s.Fail("continuity", "%s", t.where("packet %d of PID %#x has counter %d after %d", i, pid, c, last))
		}
		cc[pid] = c
	}
	s.State(uint64(cc[0x100]), uint64(cc[0x101]), uint64(cc[0]), uint64(cc[0x11]))
	n := map[int]int{}
	for i := 0; i < len(t.all); i += 188 {
		n[int(t.all[i+1]&0x1f)<<8|int(t.all[i+2])]++
	}
	for pid, name := range map[int]string{0x100: "video", 0x101: "audio", 0: "PAT", 0x11: "SDT", 0x1001: "PMT"} {
		if n[pid] > 16 {
			s.Probe(name + "-counter-wrapped")
		}
	}
}

func (t *tsSess) checkPES(w *tsWant, p *pesPkt) {
	s := t.s
	if t.o.check&chkContent != 0 {
		sid := byte(0xc0)
		if w.video {
			sid = 0xe0
		}
		if p.sid != sid {
			s.Fail("pes-stream-id", "%s", t.where("%s: stream id %#x", w.what, p.sid))
		}
		if w.cut {
			if !isPrefix(p.payload, w.payload) {
				s.Fail("pes-content", "%s", t.where("%s, cut by a failing output: %s", w.what, firstDiff(p.payload, w.payload)))
			}
			s.Probe("cut-unit")
		} else if !bytes.Equal(p.payload, w.payload) {
			s.Fail("pes-content", "%s", t.where("%s: %s", w.what, firstDiff(p.payload, w.payload)))
		}
		if p.length >= 0 && p.length != len(w.payload) {
			s.Fail("pes-length", "%s", t.where("%s: declared length %d for %d bytes", w.what, p.length, len(w.payload)))
		}
		if p.length < 0 && (!w.video || len(w.payload) <= 0xffff-13) {
			s.Fail("pes-length", "%s", t.where("%s: no declared length for %d bytes", w.what, len(w.payload)))
		}
		if p.length > 0x7fff {
			s.Probe("pes-declares-much")
		}
		if p.length < 0 {
			s.Probe("pes-without-length")
		}
		if w.video && w.key != p.random {
			s.Fail("random-access", "%s", t.where("%s: random access flag %v", w.what, p.random))
		}
	}
	if w.video && t.o.check&chkStamps != 0 {
		dts, pts := w.dts&(mod33-1), w.pts&(mod33-1)
		got := p.dts
		if got < 0 {
			got = p.pts
		}
		if p.pts != pts || got != dts {
			s.Fail("timestamps", "%s", t.where("%s at %d ms, offset %d ms: PTS %d DTS %d, want %d %d", w.what, w.dts/90, (w.pts-w.dts)/90, p.pts, got, pts, dts))
		}
		if w.dts >= mod33 {
			s.Probe("timestamp-wraps")
		}
		if w.pts < w.dts {
			s.Probe("negative-offset")
		}
		if w.key && (p.pcr != dts || p.pcrExt != 0) {
			s.Fail("clock-reference", "%s", t.where("%s at %d ms: PCR %d+%d, want %d", w.what, w.dts/90, p.pcr, p.pcrExt, dts))
		}
		if !w.key && p.pcr >= 0 && p.pcr != dts {
			s.Fail("clock-reference", "%s", t.where("%s at %d ms: PCR %d", w.what, w.dts/90, p.pcr))
		}
	}
	if !w.video && w.direct {
		if t.o.check&chkStamps != 0 && (p.pts != w.pts&(mod33-1) || p.dts >= 0 && p.dts != w.dts&(mod33-1)) {
			s.Fail("timestamps", "%s", t.where("%s: PTS %d DTS %d, want %d", w.what, p.pts, p.dts, w.pts&(mod33-1)))
		}
	} else if !w.video {
		t.checkAudio(w, p)
	}
}

// checkAudio judges an audio timestamp. The clock reads back modulo 2^33.
func (t *tsSess) checkAudio(w *tsWant, p *pesPkt) {
	s := t.s
	if t.o.check&(chkAudio|chkStamps) == 0 {
		return
	}
	if p.dts >= 0 && p.dts != p.pts {
		s.Fail("audio-dts", "%s", t.where("audio unit with PTS %d and DTS %d", p.pts, p.dts))
	}
	d := (p.pts - w.audioIn) & (mod33 - 1)
	if d >= mod33/2 {
		d -= mod33
	}
	if d > 900 || d < -900 {
		s.Fail("audio-drift", "%s", t.where("audio unit at %d ms: PTS is %d ticks away", w.audioIn/90, d))
	}
	if t.prevOut < 0 {
		t.prevOut = w.audioIn + d
	}
	if t.o.check&chkAudio != 0 && w.expect >= 0 && p.pts != w.expect&(mod33-1) {
		s.Fail("audio-clock", "%s", t.where("audio unit at %d ms: PTS %d, the frame clock is at %d", w.audioIn/90, p.pts, w.expect&(mod33-1)))
	}
}

func (t *tsSess) checkTable(w *tsWant, p *psiSec) {
	s := t.s
	b := p.sec
	bad := func(f string, a ...any) { s.Fail("table", "%s", t.where(f, a...)+fmt.Sprintf(" in %x", b)) }
	if b[1]&0x80 == 0 || b[5]&1 != 1 || b[6] != 0 || b[7] != 0 {
		bad("PID %#x: not a current single section", p.pid)
	}
	switch w.table {
	case 1:
		if b[0] != 0x42 || len(b) < 16 || b[11] != 0 || b[12] != 1 {
			bad("SDT does not describe service 1")
		}
		n := int(b[14]&15)<<8 | int(b[15])
		desc := b[16:]
		if n != len(desc) {
			bad("SDT descriptors: %d bytes declared, %d there", n, len(desc))
		}
		if w.direct {
			if !bytes.Equal(desc, w.desc) {
				bad("SDT descriptors are not %x", w.desc)
			}
			return
		}
		if !w.named {
			if n != 0 {
				bad("SDT names a service nobody named")
			}
			return
		}
		want := []byte{0x48, byte(3 + len(w.provider) + len(w.serv)), 1, byte(len(w.provider))}
		want = append(append(append(want, w.provider...), byte(len(w.serv))), w.serv...)
		if !bytes.Equal(desc, want) {
			bad("SDT does not carry provider %q and service %q", w.provider, w.serv)
		}
	case 2:
		if b[0] != 0 || len(b) != 12 || b[8] != 0 || b[9] != 1 || int(b[10]&0x1f)<<8|int(b[11]) != 0x1001 {
			bad("PAT does not list program 1 on PID 0x1001")
		}
	case 3:
		if b[0] != 2 || len(b) < 12 || b[3] != 0 || b[4] != 1 || b[10]&15 != 0 || b[11] != 0 {
			bad("PMT of another program")
		}
		var want []byte
		if w.hasV {
			want = append(want, 0x1b, 0xe1, 0x00, 0xf0, 0)
		}
		if w.hasA {
			want = append(want, 0x0f, 0xe1, 0x01, 0xf0, 0)
		}
		if w.audioFirst {
			want = append(want[5:], want[:5]...)
		}
		if !bytes.Equal(b[12:], want) {
			bad("PMT lists %x, want %x", b[12:], want)
		}
		pcr := int(b[8]&0x1f)<<8 | int(b[9])
		switch {
		case w.hasV && pcr == 0x101 && w.hasA:
			s.Finding("pcr-pid-audio", "%s", t.where("PMT of a program with video and audio names the audio PID as clock reference, the references are on the video PID"))
		case w.hasV && pcr != 0x100 || !w.hasV && w.hasA && pcr != 0x101:
			bad("PMT names PID %#x as clock reference", pcr)
		}
		s.State(uint64(p.sec[2]), uint64(pcr))
	}
}

func tsScenario(o tsOpts) core.Scenario {
	return func(s *core.Sim) {
		sometimesPreempt(s)
		for i, n := 0, 1+s.Int(3); i < n; i++ {
			id := i
			s.Go(fmt.Sprint("mixer", id), func() {
				if t := newTSSess(s, id, o); !o.audio && s.Chance(150) {
					t.direct()
				} else if o.audio && s.Int(2000) == 1999 {
					t.long()
				} else {
					t.run()
				}
			})
		}
		stuck(s, s.Run())
	}
}

func init() {
	files := []string{"container/ts/", "parser/", "container/flv/tag.go", "container/flv/demuxer.go"}
	rule := "each run draws 1-3 mixers as tasks under preemption, each fed a drawn history of media, sequence headers, metadata, table refreshes, segment switches, broken packets, clock jumps and output failures; an independent strict demultiplexer reads back everything offered to the outputs. "
	reg(&Prop{ID: "T01", Run: tsScenario(tsOpts{check: chkContent | chkStuff, faults: true, maxBody: 3000, steps: 25, big: true}), Quick: 240000, Files: files, Real: tsReal, Stub: netStub,
		Rule: rule, Faults: []string{"write-error", "torn-write", "broken-packet", "clock-jump"}, Probes: []string{"packet-refused", "cut-unit", "stream-verified", "segment", "pes-without-length", "pes-declares-much", "long-history"}})
	reg(&Prop{ID: "T02", Run: tsScenario(tsOpts{check: chkCC, faults: true, maxBody: 600, steps: 40}), Quick: 240000, Files: files, Real: tsReal, Stub: netStub,
		Rule: rule, Faults: []string{"write-error", "torn-write", "broken-packet"}, Probes: []string{"packet-refused", "video-counter-wrapped", "audio-counter-wrapped", "PAT-counter-wrapped", "SDT-counter-wrapped", "PMT-counter-wrapped", "segment", "long-history"}})
	reg(&Prop{ID: "T03", Run: tsScenario(tsOpts{check: chkStamps, faults: true, maxBody: 300, steps: 30}), Quick: 280000, Files: files, Real: tsReal, Stub: netStub,
		Rule: rule, Faults: []string{"write-error", "clock-jump"}, Probes: []string{"timestamp-wraps", "negative-offset", "millisecond-clock-wraps", "muxer-by-itself", "long-history"}})
	reg(&Prop{ID: "T04", Run: tsScenario(tsOpts{check: chkAudio, audio: true, maxBody: 100, steps: 120}), Quick: 140000, Files: files, Real: tsReal, Stub: netStub,
		Rule: rule, Faults: []string{"clock-jump"}, Probes: []string{"audio-clock-running", "audio-clock-resync", "audio-clock-at-limit", "audio-for-hours"}})
	reg(&Prop{ID: "T05", Run: tsScenario(tsOpts{check: chkPSI, tables: true, faults: true, maxBody: 300, steps: 30}), Quick: 280000, Files: files, Real: tsReal, Stub: netStub,
		Rule: rule, Faults: []string{"write-error", "broken-packet"}, Probes: []string{"names-too-long", "segment", "muxer-by-itself", "descriptor-too-long", "long-history"}})
}
