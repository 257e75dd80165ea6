package props

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"

	"verifsim/core"
)

var codecReal = []string{"parser, parser/h264, parser/aac", "container/flv (demuxer)", "packet"}

// codecScenario runs converters over drawn histories; several may share packets.
func codecScenario(video bool) core.Scenario {
	return func(s *core.Sim) {
		sometimesPreempt(s)
		var pool, heads []*mpkt
		d := flv.NewDemuxer()
		add := func(l *[]*mpkt, m *mpkt) {
			if m.bad {
				s.Fault("broken-packet")
			}
			if demux(s, d, m) {
				*l = append(*l, m)
			}
		}
		for i, n := 0, 2+s.Int(10); i < n; i++ {
			switch {
			case s.Chance(60):
				add(&pool, genMP3(s, uint32(i)))
			case s.FaultChance(20):
				add(&pool, genForeignAudio(s, uint32(i)))
			case !video && s.Chance(900):
				add(&pool, genAudio(s, uint32(i), 600))
			case s.FaultChance(150):
				add(&pool, genBadVideo(s, uint32(i), s.Chance(500)))
			default:
				add(&pool, genVideo(s, uint32(i), s.Chance(500), 600))
			}
		}
		for i, n := 0, 1+s.Int(5); i < n; i++ {
			if video == s.Chance(850) {
				add(&heads, genAVCHeader(s, uint32(i)))
			} else {
				add(&heads, genAACHeader(s, uint32(i)))
			}
		}
		orig := map[*mpkt]*packet.Packet{}
		for _, m := range append(append([]*mpkt(nil), pool...), heads...) {
			orig[m] = clonePkt(m.p)
		}
		for i, n := 0, 1+s.Int(3); i < n; i++ {
			id := i
			s.Go(fmt.Sprint("converter", id), func() { codecSession(s, id, pool, heads, orig) })
		}
		stuck(s, s.Run())
	}
}

func codecSession(s *core.Sim, id int, pool, heads []*mpkt, orig map[*mpkt]*packet.Packet) {
	var model codecModel
	c := parser.NewCodecParser()
	n := stretch(s, 3+s.Int(25), 10000)
	for j := 0; j < n; j++ {
		l := pool
		if len(l) == 0 || len(heads) > 0 && s.Chance(150) {
			l = heads
		}
		if len(l) == 0 {
			return
		}
		m := l[s.Int(len(l))]
		where := fmt.Sprintf("converter %d packet %d, %s", id, j, m.kind)
		k := s.NewSink("es")
		k.NoHand = s.Chance(300)
		k.PlanFault(120, 400)
		out := &tap{s: s, k: k, all: new([]byte)}
		err := c.Parse(m.p, out)
		failed := out.check(err, where)
		want, ok := model.convert(m)
		s.Ev(m.kind, uint64(len(k.Data)))
		if d := pktDiff(m.p, orig[m]); d != "" {
			s.Fail("packet-modified", "%s: %s", where, d)
		}
		switch {
		case !ok:
			if err == nil {
				s.Fail("verdict", "%s was accepted", where)
			}
			s.Probe("packet-refused")
		case failed:
			if !isPrefix(k.Data, want) {
				s.Fail("conversion", "%s: output cut by a failure is no prefix: %s", where, firstDiff(k.Data, want))
			}
			s.Probe("output-cut")
		case err != nil:
			s.Fail("verdict", "%s refused: %v", where, err)
		case !bytes.Equal(k.Data, want):
			s.Fail("conversion", "%s: %s", where, firstDiff(k.Data, want))
		default:
			if m.p.Type == packet.PktVideo && m.key && !m.annex && len(model.sets) > 0 && !m.seq {
				s.Probe("key-frame-with-saved-sets")
			}
			if len(want) == 0 {
				s.Probe("new-header")
			}
			s.State(uint64(len(want)), uint64(len(model.sets)))
		}
		// the sample rate follows the last accepted configuration
		r, err := c.SampleRate()
		rate := 96000
		if model.conf != nil {
			rate = aacRates[model.conf.freq]
		}
		if model.any != (err == nil) || model.conf != nil && r != rate {
			s.Fail("sample-rate", "%s: sample rate %d (%v), want %d", where, r, err, rate)
		}
	}
}

// ---- C03

func hostileMedia(s *core.Sim, ts uint32) *mpkt {
	s.Fault("hostile-bytes")
	var m *mpkt
	switch s.Int(5) {
	case 0:
		m = genVideo(s, ts, s.Chance(500), 400)
	case 1:
		m = genAVCHeader(s, ts)
	case 2:
		m = genAACHeader(s, ts)
	case 3:
		m = genAudio(s, ts, 200)
	case 4:
		m = &mpkt{p: &packet.Packet{Type: s.Int(3), TimeStamp: ts, Data: s.Bytes(s.Size(3000))}}
		if len(m.p.Data) > 2 && s.Chance(700) {
			copy(m.p.Data, [][]byte{{0x17, 0}, {0x17, 1}, {0x27, 1}, {0xaf, 0}, {0xaf, 1}, {0x2f, 0xff}, {0x57, 0}, {2, 0}, {0x12, 0}}[s.Int(9)])
		}
	}
	if s.Chance(40) {
		return flood(s, ts)
	}
	m.kind = "hostile packet"
	if s.Chance(700) {
		m.p.Data = mutate(s, m.p.Data)
		if len(m.p.Data) > 5 && s.Chance(300) { // length fields of NAL units and parameter sets
			at := 5 + s.Int(min(12, len(m.p.Data)-5))
			for i := at; i < len(m.p.Data) && i < at+4; i++ {
				m.p.Data[i] = []byte{0, 0xff, 0x80, 0x7f, 1}[s.Int(5)]
			}
		}
	}
	return m
}

// flood makes packets of many kilobytes that consist of the smallest units
func flood(s *core.Sim, ts uint32) *mpkt {
	s.Probe("flood-of-units")
	n := 1 << (8 + s.Int(10))
	var d []byte
	typ := packet.PktVideo
	switch s.Int(4) {
	case 0, 1: // tiny NAL units, mostly of one kind
		d = append(d, 0x17+byte(s.Int(2))*0x10, 1, 0, 0, 0)
		ll := []int{1, 2, 4}[s.Int(3)]
		one := []byte{7, 8, 5, 1, 6, 9}[s.Int(6)]
		for len(d) < n {
			l := 1
			if s.Chance(2) {
				l += s.Int(100)
			}
			for i := ll - 1; i >= 0; i-- {
				d = append(d, byte(l>>(8*i)))
			}
			d = append(d, one)
			for ; l > 1; l-- {
				d = append(d, byte(l))
			}
			if s.Chance(2) {
				one = []byte{7, 8, 5, 1, 6, 9}[s.Int(6)]
			}
		}
	case 2: // a header of many sets
		d = append(d, 0x17, 0, 0, 0, 0, 1, 66, 0, 30, 0xfc|byte(s.Int(4)), 0xff)
		max := n / 300
		set := func() {
			l := 1 + s.Int(max)
			d = append(d, byte(l>>8), byte(l))
			d = append(d, make([]byte, l)...)
		}
		for i := 0; i < 31; i++ {
			set()
		}
		d = append(d, 255)
		for i := 0; i < 255; i++ {
			set()
		}
	default:
		typ = packet.PktAudio
		d = append(d, []byte{0xaf, 0x2f}[s.Int(2)], byte(s.Int(3)))
		d = append(d, make([]byte, n)...)
	}
	return &mpkt{p: &packet.Packet{Type: typ, TimeStamp: ts, Data: d}, kind: "hostile packet"}
}

func runC03(s *core.Sim) {
	s.Faulty = true
	for i, n := 0, 1+s.Int(2); i < n; i++ {
		id := i
		s.Go(fmt.Sprint("victim", id), func() { c03Session(s, id) })
	}
	if s.Chance(500) {
		s.Go("bystander", func() {
			newTSSess(s, 9, tsOpts{check: chkContent | chkCC | chkStamps, maxBody: 300, steps: 10}).run()
		})
	}
	stuck(s, s.Run())
}

func c03Session(s *core.Sim, id int) {
	where := func(f string, a ...any) string { return fmt.Sprintf("session %d: ", id) + fmt.Sprintf(f, a...) }
	d := flv.NewDemuxer()
	c := parser.NewCodecParser()
	tk, fk, ek := s.NewSink("ts"), s.NewSink("flv"), s.NewSink("es")
	tm := ts.NewMixer(tk)
	fm := flv.NewMixer(fk)
	cache := gop.NewCache(1 + s.Int(2))
	kept := 0 // the largest packet so far: a header comes back with each later key frame
	for i, n := 0, 1+s.Int(12); i < n; i++ {
		m := hostileMedia(s, s.U32())
		kept = max(kept, len(m.p.Data))
		what := where("%d hostile bytes", len(m.p.Data))
		size := len(m.p.Data) + kept
		s.Alloc(uint64(4<<20+400*size), what, func() {
			s.Budget(int64(50000+400*size), what, func() {
				if err := d.Demux(m.p); err != nil {
					s.Probe("hostile-refused")
					return
				}
				cts := uint32(0)
				if h, ok := m.p.Header.(packet.VideoPacketHeader); ok && m.p.Type == packet.PktVideo {
					cts = uint32(h.CompositionTime())
					_ = h.IsSeqHdr()
				}
				ek.Data = ek.Data[:0]
				c.Parse(m.p, ek)
				c.SampleRate()
				fm.Mux(m.p, m.p.TimeStamp)
				if m.p.Type == packet.PktMetadata {
					amf.AddMetaHeader(m.p.Data, amf.NewEnDecAMF0())
					amf.DelMetaHeader(m.p.Data, amf.NewEnDecAMF0())
				} else {
					tm.Update(m.p, m.p.TimeStamp, cts)
					if s.Chance(300) {
						if m.p.Type == packet.PktVideo {
							tm.SaveAVCHeader(m.p)
							fm.SaveAVCHeader(m.p)
						} else {
							tm.SaveAACHeader(m.p)
							fm.SaveAACHeader(m.p)
						}
						m.p.Media = nil
						d.Demux(m.p)
					}
					if err := tm.Mux(m.p); err != nil {
						s.Probe("hostile-refused")
					}
				}
				cache.Write(m.p)
				cache.SendTo(&player{s: s, failAt: -1})
				if s.Chance(200) {
					tm.SetTsHeader()
				}
			})
		})
		if s.Chance(300) {
			tk.Data, fk.Data = tk.Data[:0], fk.Data[:0]
		}
	}
	if len(tk.Data)%188 != 0 {
		s.Fail("ts-syntax", "%s", where("hostile media made %d bytes of transport stream", len(tk.Data)))
	}
	// from here on good media: what follows new headers is converted as always
	tk.Data, fk.Data = nil, nil
	s.Faulty = false
	var model codecModel
	vh, ah := genAVCHeader(s, 0), genAACHeader(s, 0)
	good := []*mpkt{vh, ah, genVideo(s, 0, true, 300), genAudio(s, 0, 200), genVideo(s, 40, false, 300), genAudio(s, 23, 200)}
	s.Faulty = true
	var flvWant []byte
	dem := newTSDemux()
	var units [][]byte
	for i, m := range good {
		demux(s, d, m)
		want, ok := model.convert(m)
		ek.Data = nil
		if err := c.Parse(m.p, ek); !ok || err != nil || !bytes.Equal(ek.Data, want) {
			s.Fail("converter-poisoned", "%s", where("after hostile media, good packet %d (%s): error %v, %s", i, m.kind, err, firstDiff(ek.Data, want)))
		}
		if err := fm.Mux(m.p, m.p.TimeStamp); err != nil {
			s.Fail("flv-poisoned", "%s", where("after hostile media, good packet %d (%s): %v", i, m.kind, err))
		}
		flvWant = appendTag(flvWant, byte(9-m.p.Type), m.p.TimeStamp, m.p.Data)
		if err := cache.Write(m.p); err != nil && !(m.p.Type == packet.PktVideo && !m.key) {
			s.Fail("cache-poisoned", "%s", where("after hostile media, good packet %d (%s): %v", i, m.kind, err))
		}
		var err error
		switch {
		case i == 0:
			err = tm.SaveAVCHeader(m.p)
		case i == 1:
			err = tm.SaveAACHeader(m.p)
		default:
			if err = tm.Update(m.p, m.p.TimeStamp, uint32(m.cts)); err == nil {
				err = tm.Mux(m.p)
			}
			units = append(units, want)
		}
		if err != nil {
			s.Fail("ts-poisoned", "%s", where("after hostile media, good packet %d (%s): %v", i, m.kind, err))
		}
	}
	if !bytes.Equal(fk.Data, flvWant) {
		s.Fail("flv-poisoned", "%s", where("after hostile media, FLV of good media: %s", firstDiff(fk.Data, flvWant)))
	}
	p := &player{s: s, failAt: -1}
	if err := cache.SendTo(p); err != nil {
		s.Fail("cache-poisoned", "%s", where("join after hostile media: %v", err))
	}
	found := 0
	for _, m := range []*mpkt{vh, ah, good[2], good[4]} {
		for _, x := range p.got {
			if x != nil && x.Type == m.p.Type && x.TimeStamp == m.p.TimeStamp && bytes.Equal(x.Data, m.p.Data) {
				found++
				break
			}
		}
	}
	if found != 4 {
		s.Fail("cache-poisoned", "%s", where("join after hostile media gives %d of 4 good packets", found))
	}
	for i := 0; i+188 <= len(tk.Data); i += 188 {
		if err := dem.packet(tk.Data[i : i+188]); err != nil {
			s.Fail("ts-poisoned", "%s", where("after hostile media: %v", err))
		}
	}
	if len(dem.items) != len(units) || dem.ccBad != "" {
		s.Fail("ts-poisoned", "%s", where("after hostile media: %d units of %d, %s", len(dem.items), len(units), dem.ccBad))
	}
	for i, it := range dem.items {
		if it.pes == nil || !bytes.Equal(it.pes.payload, units[i]) {
			s.Fail("ts-poisoned", "%s", where("after hostile media, unit %d differs", i))
		}
	}
	s.Probe("good-media-after-hostile")
}

func init() {
	files := []string{"parser/", "container/flv/tag.go", "container/flv/demuxer.go"}
	rule := "each run draws a pool of packets and headers, some broken, that 1-3 converters consume in drawn orders under preemption, onto outputs that fail at drawn bytes; an independent converter with the same history says what every packet becomes. "
	reg(&Prop{ID: "C01", Run: codecScenario(true), Quick: 600000, Files: files, Real: codecReal, Stub: netStub,
		Rule: rule, Faults: []string{"write-error", "torn-write", "broken-packet"}, Probes: []string{"packet-refused", "output-cut", "key-frame-with-saved-sets", "new-header", "short-nal-lengths", "long-history", "empty-parameter-set", "length-like-a-start-code"}})
	reg(&Prop{ID: "C02", Run: codecScenario(false), Quick: 1000000, Files: files, Real: codecReal, Stub: netStub,
		Rule: rule, Faults: []string{"write-error", "torn-write", "broken-packet"}, Probes: []string{"mp3-frame", "packet-refused", "output-cut", "new-header", "adts-frame-at-limit", "long-history"}})
	reg(&Prop{ID: "C03", Run: runC03, Quick: 160000, Files: []string{"parser/", "container/", "gop/"}, Real: append([]string{"container/ts, container/flv (mixers)", "gop"}, codecReal...), Stub: netStub,
		Rule:   "each run feeds damaged and random media through demuxer, converters, both containers and the group cache under statement and allocation budgets, next to a good session, and then good media through the same objects.",
		Faults: []string{"hostile-bytes"}, Probes: []string{"hostile-refused", "flood-of-units", "good-media-after-hostile"}})
}
