package props

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"

	"verifsim/core"
)

var relayReal = []string{"container/flv", "container/ts", "parser (all)", "gop", "amf (metadata helpers, metadata encoding)", "packet"}

// ---- R01: outputs sharing packets

// pool draws what a publisher sends: headers, then media.
func relayPool(s *core.Sim, broken bool) []*mpkt {
	d := flv.NewDemuxer()
	var l []*mpkt
	add := func(m *mpkt) {
		m.p.StreamID, m.p.Baseline = uint32(s.Int(3)), uint32(s.Int(3))*uint32(s.Int(1<<20))
		if m.p.Type == packet.PktMetadata || demux(s, d, m) {
			l = append(l, m)
		}
	}
	clock := uint32(s.Int(5)) * 1000
	if s.Chance(700) {
		p, data, ok := genMetaPacket(s, clock)
		add(&mpkt{p: p, kind: "metadata", raw: data, bad: !ok})
	}
	add(genAVCHeader(s, clock))
	add(genAACHeader(s, clock))
	key := true
	for i, n := 0, stretch(s, 3+s.Int(14), 1000); i < n; i++ {
		clock += uint32(5 + s.Int(40))
		switch s.Pick(10, 8, 1, 1, 1) {
		case 0:
			if broken && s.FaultChance(60) {
				s.Fault("broken-packet")
				add(genBadVideo(s, clock, key))
				continue
			}
			add(genVideo(s, clock, key, 700))
			key = s.Chance(150)
		case 1:
			add(genAudio(s, clock, 300))
		case 2:
			add(genAVCHeader(s, clock))
		case 3:
			add(genAACHeader(s, clock))
		case 4:
			p, data, ok := genMetaPacket(s, clock)
			add(&mpkt{p: p, kind: "metadata", raw: data, bad: !ok})
		}
	}
	return l
}

// tsFeed sends one packet through a TS output the way a server does. The output
// replaces the media of a header it keeps (a known finding), so that headers
// are kept by way of a copy, and it must not touch anything else of them.
func tsFeed(s *core.Sim, mx *ts.Mixer, m *packet.Packet, seq bool) error {
	if seq {
		own, was := *m, clonePkt(m)
		save := mx.SaveAACHeader
		if m.Type == packet.PktVideo {
			save = mx.SaveAVCHeader
		}
		err := save(&own)
		if !bytes.Equal(own.Media, was.Media) {
			s.Finding("ts-header-replaces-media", "keeping a sequence header for TS replaced the media of the packet")
			own.Media = m.Media
		}
		if d := pktDiff(&own, was); d != "" {
			s.Fail("packet-modified", "keeping a sequence header for TS: %s", d)
		}
		return err
	}
	if m.Type == packet.PktMetadata {
		return nil
	}
	var cts uint32
	if m.Type == packet.PktVideo {
		cts = uint32(m.Header.(packet.VideoPacketHeader).CompositionTime())
	}
	if err := mx.Update(m, m.TimeStamp, cts); err != nil {
		return err
	}
	return mx.Mux(m)
}

func runR01(s *core.Sim) {
	sometimesPreempt(s)
	pool := relayPool(s, true)
	orig := make([]*packet.Packet, len(pool))
	for i, m := range pool {
		orig[i] = clonePkt(m.p)
	}
	// what a lone TS output makes of copies of the packets
	refTS := s.NewSink("alone")
	verdict := make([]bool, len(pool))
	{
		mx := ts.NewMixer(refTS)
		for i, m := range pool {
			verdict[i] = tsFeed(s, mx, clonePkt(m.p), m.seq) == nil
		}
	}
	// what an FLV output has to make of them
	var refFLV []byte
	for _, m := range pool {
		if m.p.Type == packet.PktMetadata {
			if !m.bad {
				refFLV = appendTag(refFLV, 18, m.p.TimeStamp, m.raw)
			}
			continue
		}
		typ := byte(9)
		if m.p.Type == packet.PktAudio {
			typ = 8
		}
		refFLV = appendTag(refFLV, typ, m.p.TimeStamp, m.p.Data)
	}
	unchanged := func(i int, where string) {
		m := pool[i]
		if d := pktDiff(m.p, orig[i]); d != "" {
			s.Fail("packet-modified", "%s, packet %d (%s): %s", where, i, m.kind, d)
		}
	}
	n := 2 + s.Int(4)
	for j := 0; j < n; j++ {
		id := j
		k := s.NewSink(fmt.Sprint("out", id))
		k.NoHand = s.Chance(300)
		dies := k.PlanFault(250, 4000)
		if dies {
			k.Heal = 0
		}
		kind := s.Int(4)
		name := []string{"flv", "ts", "rtmp", "converter"}[kind] + fmt.Sprint(id)
		s.Go(name, func() {
			out := &tap{s: s, k: k, all: new([]byte)}
			fm, tm, cv := flv.NewMixer(out), ts.NewMixer(out), parser.NewCodecParser()
			var model codecModel
			var held, heldWas [][]byte // announcements waiting to be sent
			for i, m := range pool {
				where := fmt.Sprintf("output %s", name)
				out.begin()
				var err error
				switch kind {
				case 0:
					err = fm.Mux(m.p, m.p.TimeStamp)
					if !out.failed && (err == nil) != !(m.p.Type == packet.PktMetadata && m.bad) {
						s.Fail("output-verdict", "%s, packet %d (%s): %v", where, i, m.kind, err)
					}
				case 1:
					err = tsFeed(s, tm, m.p, m.seq)
					if !out.failed && (err == nil) != verdict[i] {
						s.Fail("output-verdict", "%s, packet %d (%s): %v, alone it is accepted: %v", where, i, m.kind, err, verdict[i])
					}
				case 2: // relaying over RTMP puts the announcement in front
					if m.p.Type != packet.PktMetadata {
						continue
					}
					s.Probe("metadata-relayed")
					b, err := amf.AddMetaHeader(m.p.Data, amf.NewEnDecAMF0())
					if err != nil {
						if !m.bad {
							s.Fail("output-verdict", "%s, packet %d (%s): %v", where, i, m.kind, err)
						}
						break
					}
					held, heldWas = append(held, b), append(heldWas, bytes.Clone(b))
					for j := range held {
						if !bytes.Equal(held[j], heldWas[j]) {
							s.Fail("metadata-relay", "%s, packet %d: announcement %d of %d, not sent yet, changed: %s", where, i, j, len(held), firstDiff(held[j], heldWas[j]))
						}
					}
					if len(held) > 1 {
						s.Probe("announcements-waiting")
					}
					b = append([]byte(nil), b...)
					c, err := amf.DelMetaHeader(b, amf.NewEnDecAMF0())
					if !m.bad && (err != nil || !bytes.Equal(c, m.raw)) {
						s.Fail("metadata-relay", "%s, packet %d: announced and stripped again it is not the same: %v, %s", where, i, err, firstDiff(c, m.raw))
					}
					short, long := amf0Str(amf.SetDataFrame, false), amf0Str(amf.SetDataFrame, true)
					if !m.bad && !isPrefix(short, b) && !isPrefix(long, b) {
						s.Fail("metadata-relay", "%s, packet %d: not announced: %s", where, i, core.Hex(b))
					}
				case 3:
					if m.p.Type == packet.PktMetadata {
						continue
					}
					var w bytes.Buffer
					err = cv.Parse(m.p, &w)
					want, ok := model.convert(m)
					if ok != (err == nil) || ok && !bytes.Equal(w.Bytes(), want) {
						s.Fail("output-verdict", "%s, packet %d (%s): %v, %s", where, i, m.kind, err, firstDiff(w.Bytes(), want))
					}
				}
				unchanged(i, where)
				s.Ev("fed", uint64(i))
				if out.check(err, where) {
					s.Probe("output-lost")
					break // this output is gone, the others must not notice
				}
			}
			for j := range held {
				if !bytes.Equal(held[j], heldWas[j]) {
					s.Fail("metadata-relay", "output %s: announcement %d of %d changed before it was sent: %s", name, j, len(held), firstDiff(held[j], heldWas[j]))
				}
			}
			want := refFLV
			if kind == 1 {
				want = refTS.Data
			}
			if kind < 2 && (!isPrefix(k.Data, want) || !out.failed && len(k.Data) != len(want)) {
				s.Fail("output-differs", "output %s is not what it is alone: %s", name, firstDiff(k.Data, want))
			}
		})
	}
	stuck(s, s.Run())
	for i := range pool {
		unchanged(i, "at the end")
	}
}

// ---- R02: connections and streams do not disturb each other

func runR02(s *core.Sim) {
	s.Preempt([]int{2000, 300, 40}[s.Int(3)])
	type solo struct {
		name string
		feed func(o *core.Sink)
		want []byte
	}
	var solos []solo
	for i, n := 0, 1+s.Int(2); i < n; i++ { // a TS output, compared with itself alone
		l := relayPool(s, true)
		f := solo{name: fmt.Sprint("ts", i), feed: func(o *core.Sink) {
			mx := ts.NewMixer(o)
			mx.SaveMetadata(amf.Object{"Provider": "p", "Service": l[0].kind})
			mx.SetTsHeader()
			for _, m := range l {
				tsFeed(s, mx, clonePkt(m.p), m.seq)
			}
			mx.SetTsHeader()
		}}
		solos = append(solos, f)
	}
	for i := range solos {
		k := s.NewSink("alone")
		solos[i].feed(k)
		solos[i].want = k.Data
	}
	for i := range solos {
		f := solos[i]
		s.Go(f.name, func() {
			k := s.NewSink(f.name)
			f.feed(k)
			if !bytes.Equal(k.Data, f.want) {
				s.Fail("output-differs", "output %s is not what it is alone: %s", f.name, firstDiff(k.Data, f.want))
			}
		})
	}
	// other traffic, each judged by its own oracle
	kinds := 0
	for i, n := 0, 2+s.Int(4); i < n; i++ {
		id := i + 10
		k := s.Int(9)
		kinds |= 1 << k
		switch k {
		case 0:
			a01Session(s, id)
		case 1:
			var in []flvIn
			for j, n := 0, 1+s.Int(6); j < n; j++ {
				in = append(in, genFLVIn(s))
			}
			s.Go(fmt.Sprint("flv", id), func() { f01Session(s, id, in) })
		case 2:
			s.Go(fmt.Sprint("join", id), func() { (&f02Sess{s: s, id: id}).run() })
		case 3:
			o := tsOpts{check: chkContent | chkCC | chkStamps | chkAudio, maxBody: 400, steps: 10}
			s.Go(fmt.Sprint("mixer", id), func() { newTSSess(s, id, o).run() })
		case 4:
			s01Session(s, id, false)
		case 5:
			c, amf3 := newCodec(s)
			registerPair(c)
			e := &fenc{s: s}
			var wants []any
			for j, k := 0, 1+s.Int(3); j < k; j++ {
				if amf3 {
					wants = append(wants, e.v3(2))
				} else {
					wants = append(wants, e.v0(2))
				}
			}
			l := s.Source(fmt.Sprint("foreign", id), e.b)
			s.Go(fmt.Sprint("amf", id), func() {
				for j, w := range wants {
					v, err := c.Decode(l)
					if err != nil {
						s.Fail("decode-error", "connection %d, value %d of a conforming stream: %v", id, j, err)
					}
					if d := differ(v, w); d != "" {
						s.Fail("wrong-value", "connection %d value %d: %s", id, j, d)
					}
				}
			})
		case 6:
			gopSession(s, id)
		case 7:
			s02Writer(s, id)
		case 8:
			var pool, heads []*mpkt
			orig := map[*mpkt]*packet.Packet{}
			d := flv.NewDemuxer()
			for j, n := 0, 3+s.Int(6); j < n; j++ {
				l, m := &pool, genVideo(s, uint32(j), s.Chance(500), 200)
				switch s.Int(4) {
				case 0:
					m = genAudio(s, uint32(j), 200)
				case 1:
					l, m = &heads, genAVCHeader(s, uint32(j))
				case 2:
					l, m = &heads, genAACHeader(s, uint32(j))
				}
				if demux(s, d, m) {
					*l = append(*l, m)
					orig[m] = clonePkt(m.p)
				}
			}
			s.Go(fmt.Sprint("converter", id), func() { codecSession(s, id, pool, heads, orig) })
		}
	}
	for i := 0; i < 9; i++ {
		if kinds>>i&1 == 1 {
			s.Probe([]string{"with-amf", "with-flv", "with-flv-joins", "with-ts", "with-sip", "with-foreign-amf", "with-gop", "with-sip-writer", "with-converter"}[i])
		}
	}
	stuck(s, s.Run())
}

// gopSession is one cache with packets of its own.
func gopSession(s *core.Sim, id int) {
	key, inter, vh, ah, aud, md := gopPool(s, flv.NewDemuxer())
	all := append(append(append(append(append(append([]*mpkt(nil), key...), inter...), inter...), vh...), ah...), append(aud, md...)...)
	orig := map[*packet.Packet]*packet.Packet{}
	for _, m := range all {
		orig[m.p] = clonePkt(m.p)
	}
	g := &gopModel{n: s.Int(4)}
	s.Go(fmt.Sprint("cache", id), func() {
		c := gop.NewCache(g.n)
		for i, n := 0, 4+s.Int(30); i < n; i++ {
			m := all[s.Int(len(all))]
			if g.put(m) != (c.Write(m.p) == nil) {
				s.Fail("cache-verdict", "cache %d, %s", id, m.kind)
			}
			if s.Chance(200) || i == n-1 {
				p := &player{s: s, failAt: -1, slow: -1}
				p.judge(fmt.Sprint("cache ", id), g.join(), orig, c.SendTo(p))
			}
		}
	})
}

// ---- R03: from publisher to players

// collector takes what a cache sends to a joining player.
type collector struct{ l []*packet.Packet }

func (c *collector) Write(p *packet.Packet) error {
	c.l = append(c.l, p)
	return nil
}

// viewer is a player that joins, may lose its connection, and joins again.
type viewer struct {
	s     *core.Sim
	name  string
	ts    bool
	queue []*packet.Packet
	live  bool
	whole []*packet.Packet // everything queued since it joined
	epoch int
}

type server struct {
	s      *core.Sim
	cache  *gop.Cache
	model  *gopModel
	known  map[*packet.Packet]*mpkt
	views  []*viewer
	busy   bool
	epoch  int
	over   bool // publishing has ended
	faults bool // faults are still injected
	groups int
}

func (v *server) lock() {
	v.s.Block(func() bool { return !v.busy })
	v.busy = true
}

// publish is one publisher's connection: it may break off anywhere, and the
// next one starts with headers of its own.
func (v *server) publish(last bool) {
	s := v.s
	d := flv.NewDemuxer()
	v.lock()
	v.epoch++
	v.cache = gop.NewCache(v.groups)
	v.model = &gopModel{n: v.groups}
	for _, w := range v.views { // a new stream: players start again
		w.live = false
	}
	v.busy = false
	clock := uint32(s.Int(4)) * 500
	if s.Chance(100) {
		clock = 0xffffffff - uint32(s.Int(2000))
	}
	send := func(m *mpkt) {
		if m.p.Type != packet.PktMetadata {
			if err := d.Demux(m.p); err != nil {
				s.Fail("demux-error", "publisher, %s: %v", m.kind, err)
			}
		}
		v.lock()
		v.known[m.p] = m
		ok := v.model.put(m)
		if err := v.cache.Write(m.p); ok != (err == nil) {
			s.Fail("cache-verdict", "%s: %v", m.kind, err)
		}
		for _, w := range v.views {
			if w.live {
				w.queue = append(w.queue, m.p)
				w.whole = append(w.whole, m.p)
			}
		}
		v.busy = false
		s.Sleep(int64(s.Int(40)) * 1e6)
	}
	steps := stretch(s, 8+s.Int(30), 3000)
	crash := -1
	if !last {
		crash = s.Int(steps)
	}
	if s.Chance(700) {
		e := &fenc{s: s}
		e.byte(amf0Str(amf.OnMetaData, false)...)
		e.byte(8)
		e.u32(1)
		e.str16("width")
		e.v0(0)
		e.byte(0, 0, 9)
		b := e.b
		if s.Chance(500) {
			b = append(amf0Str(amf.SetDataFrame, false), b...)
		}
		send(&mpkt{p: &packet.Packet{Type: packet.PktMetadata, TimeStamp: clock, Data: b}, kind: "metadata", raw: e.b})
	}
	heads := func() {
		old := s.Faulty
		s.Faulty = false // headers are whole
		h, a := genAVCHeader(s, clock), genAACHeader(s, clock)
		s.Faulty = old
		switch s.Pick(60, 25, 5, 5) {
		case 0:
			send(h)
			send(a)
		case 1:
			send(a)
			send(h)
		case 2:
			send(h)
		case 3:
			send(a)
		}
	}
	heads()
	key := true
	for i := 0; i < steps; i++ {
		if i == crash {
			s.Fault("publisher-crash")
			return
		}
		clock += uint32(10 + s.Int(40))
		old := s.Faulty
		s.Faulty = false
		m := genAudio(s, clock, 200)
		if s.Chance(600) {
			m = genVideo(s, clock, key, 500)
			key = s.Chance(200)
		}
		s.Faulty = old
		if s.Chance(20) {
			heads()
		}
		send(m)
	}
	if last { // a last group, so that everybody can go on
		s.Faulty = false
		clock += 40
		send(genVideo(s, clock, true, 300))
		for i := 0; i < 3; i++ {
			clock += 40
			send(genVideo(s, clock, false, 300))
			send(genAudio(s, clock, 100))
		}
	}
}

// serve plays one session of a player, until its output fails or the stream is
// over. It returns whether the player stays.
func (v *server) serve(w *viewer, sess int) bool {
	s := v.s
	v.lock()
	c := &collector{}
	p := &collector{}
	if err := v.cache.SendTo(c); err != nil {
		s.Fail("join-error", "%s: %v", w.name, err)
	}
	p.l = v.model.join()
	if len(p.l) != len(c.l) {
		s.Fail("join-sequence", "%s: %d packets, want %d", w.name, len(c.l), len(p.l))
	}
	for i, x := range c.l {
		if d := pktDiff(x, p.l[i]); d != "" {
			s.Fail("join-sequence", "%s: packet %d of %d is not the one published: %s", w.name, i, len(p.l), d)
		}
	}
	w.queue = append([]*packet.Packet(nil), c.l...)
	w.whole = append([]*packet.Packet(nil), p.l...)
	w.live = true
	epoch := v.epoch
	had := v.model.vh != nil
	v.busy = false

	k := s.NewSink(fmt.Sprintf("%s-%d", w.name, sess))
	k.NoHand = s.Chance(300)
	if s.Chance(200) {
		k.Delay = int64(1+s.Int(60)) * 1e6
		s.Probe("slow-player")
	}
	if v.faults {
		k.PlanFault(400, 6000)
	}
	out := &tap{s: s, k: k, all: new([]byte)}
	fm, tm := flv.NewMixer(out), ts.NewMixer(out)
	started := false
	var heard codecModel // what the TS output has been told
	where := fmt.Sprintf("%s, session %d", w.name, sess)
	fed := 0
	for {
		s.Block(func() bool { return len(w.queue) > 0 || !w.live || v.over })
		v.lock()
		if len(w.queue) == 0 {
			v.busy = false
			break
		}
		x := w.queue[0]
		w.queue = w.queue[1:]
		v.busy = false
		m := v.known[w.whole[fed]] // the cache may hand out a copy
		fed++
		out.begin()
		var err error
		can := true
		if w.ts && x.Type != packet.PktMetadata {
			_, can = heard.convert(m)
		}
		if !started && (m.seq || x.Type == packet.PktMetadata) {
			// headers that come first are kept, and written before any media
			switch {
			case w.ts && m.seq:
				err = tsFeed(s, tm, x, true)
			case w.ts:
			case x.Type == packet.PktVideo:
				err = fm.SaveAVCHeader(x)
			case x.Type == packet.PktAudio:
				err = fm.SaveAACHeader(x)
			default:
				err = fm.SaveMetadata(amf.Object{"width": 1.0})
			}
		} else {
			if !started {
				started = true
				if w.ts {
					err = tm.SetTsHeader()
				} else {
					err = fm.SetFlvHeader()
				}
			}
			if err == nil && w.ts {
				err = tsFeed(s, tm, x, m.seq)
			} else if err == nil {
				err = fm.Mux(x, x.TimeStamp)
			}
		}
		if out.check(err, where) {
			s.Probe("player-lost")
			break
		}
		if can != (err == nil) {
			s.Fail("player-error", "%s: %s: %v, can be carried: %v", where, m.kind, err, can)
		}
		if !can {
			s.Probe("audio-without-header")
		}
	}
	v.lock()
	w.live = false
	failed := out.failed
	n := fed
	v.busy = false
	seen := w.whole[:min(n, len(w.whole))]
	if w.ts {
		v.judgeTS(where, *out.all, seen, failed, had)
	} else {
		v.judgeFLV(where, *out.all, seen, failed, had)
	}
	s.Ev("session", uint64(n))
	if !failed && v.over && epoch == v.epoch {
		if len(w.whole) != n {
			s.Fail("no-progress", "%s: %d of %d packets", where, n, len(w.whole))
		}
		return false
	}
	return true
}

// first splits what a player saw into leading headers and the rest.
func (v *server) first(seen []*packet.Packet) (md, vh, ah *mpkt, rest []*mpkt) {
	for i, p := range seen {
		m := v.known[p]
		switch {
		case p.Type == packet.PktMetadata:
			md = m
		case m.seq && p.Type == packet.PktVideo:
			vh = m
		case m.seq:
			ah = m
		default:
			for _, p := range seen[i:] {
				rest = append(rest, v.known[p])
			}
			return
		}
	}
	return
}

func (v *server) judgeFLV(where string, b []byte, seen []*packet.Packet, failed, had bool) {
	s := v.s
	md, vh, ah, rest := v.first(seen)
	if len(rest) == 0 {
		if len(b) > 0 {
			s.Fail("early-output", "%s: %d bytes before any media", where, len(b))
		}
		return
	}
	if failed && len(b) < 13 {
		return
	}
	hv, ha, tail, err := parseFLVHeader(b)
	if err != nil || hv != (vh != nil) || ha != (ah != nil) {
		s.Fail("file-header", "%s: video %v audio %v, %v", where, hv, ha, err)
	}
	tags, part, err := parseFLVTags(tail)
	if err != nil || part && !failed {
		s.Fail("player-stream", "%s: cut %v, %v", where, part, err)
	}
	type wt struct {
		typ  byte
		ts   uint32
		data []byte
	}
	var want []wt
	if md != nil {
		want = append(want, wt{18, 0, nil})
	}
	if vh != nil {
		want = append(want, wt{9, 0, vh.p.Data})
	}
	if ah != nil {
		want = append(want, wt{8, 0, ah.p.Data})
	}
	for _, m := range rest {
		switch m.p.Type {
		case packet.PktVideo:
			want = append(want, wt{9, m.p.TimeStamp, m.p.Data})
		case packet.PktAudio:
			want = append(want, wt{8, m.p.TimeStamp, m.p.Data})
		default:
			want = append(want, wt{18, m.p.TimeStamp, m.raw})
		}
	}
	if len(tags) > len(want) || !failed && len(tags) != len(want) {
		s.Fail("player-stream", "%s: %d tags, want %d", where, len(tags), len(want))
	}
	for i, g := range tags {
		if g.typ != want[i].typ || g.ts != want[i].ts || want[i].data != nil && !bytes.Equal(g.data, want[i].data) {
			s.Fail("player-stream", "%s: tag %d of %d: type %d at %d, want type %d at %d: %s", where, i, len(want), g.typ, g.ts, want[i].typ, want[i].ts, firstDiff(g.data, want[i].data))
		}
	}
	if !failed {
		s.Probe("flv-session")
	}
	v.decodable(where, rest, vh, had)
}

// decodable checks that the first picture of a late joiner is a key frame.
func (v *server) decodable(where string, rest []*mpkt, vh *mpkt, had bool) {
	if v.groups == 0 {
		return
	}
	for _, m := range rest {
		if m.p.Type == packet.PktVideo && !m.seq {
			if !m.key || vh == nil && had {
				v.s.Fail("undecodable-start", "%s: the first picture is %s, header %v", where, m.kind, vh != nil)
			}
			v.s.Probe("starts-with-key-frame")
			return
		}
	}
}

func (v *server) judgeTS(where string, b []byte, seen []*packet.Packet, failed, had bool) {
	s := v.s
	_, vh, ah, rest := v.first(seen)
	if len(rest) == 0 {
		if len(b) > 0 {
			s.Fail("early-output", "%s: %d bytes before any media", where, len(b))
		}
		return
	}
	d := newTSDemux()
	for i := 0; i < len(b); i += 188 {
		if err := d.packet(b[i:min(i+188, len(b))]); err != nil {
			s.Fail("player-stream", "%s: %v", where, err)
		}
	}
	if d.ccBad != "" {
		s.Fail("player-stream", "%s: %s", where, d.ccBad)
	}
	if !failed && len(d.items) < 3 {
		s.Fail("player-stream", "%s: no tables", where)
	}
	for i := 0; i < min(3, len(d.items)); i++ {
		if d.items[i].psi == nil {
			s.Fail("player-stream", "%s: media before the tables", where)
		}
	}
	var cm codecModel
	if vh != nil {
		cm.convert(vh)
	}
	if ah != nil {
		cm.convert(ah)
	}
	at := min(3, len(d.items))
	last := -1
	for i, m := range rest {
		if m.p.Type != packet.PktMetadata && !m.seq {
			last = i
		}
	}
	for i, m := range rest {
		if m.p.Type == packet.PktMetadata {
			continue
		}
		want, ok := cm.convert(m)
		if m.seq || !ok {
			continue
		}
		if at >= len(d.items) {
			if failed {
				break
			}
			s.Fail("player-stream", "%s: packet %d of %d (%s) is missing", where, i, len(rest), m.kind)
		}
		g := d.items[at].pes
		at++
		if g == nil || g.pid == 0x100 != (m.p.Type == packet.PktVideo) {
			s.Fail("player-stream", "%s: packet %d of %d (%s) is missing", where, i, len(rest), m.kind)
		}
		if !bytes.Equal(g.payload, want) && !(failed && i == last && isPrefix(g.payload, want)) {
			s.Fail("player-stream", "%s: packet %d of %d (%s): %s", where, i, len(rest), m.kind, firstDiff(g.payload, want))
		}
		if m.p.Type == packet.PktVideo {
			if dts := int64(m.p.TimeStamp) * 90 & (mod33 - 1); g.dts >= 0 && g.dts != dts || g.dts < 0 && g.pts != dts {
				s.Fail("player-stream", "%s: packet %d (%s) at %d ms: DTS %d PTS %d", where, i, m.kind, m.p.TimeStamp, g.dts, g.pts)
			}
			if g.random != m.key {
				s.Fail("player-stream", "%s: packet %d (%s): random access %v", where, i, m.kind, g.random)
			}
		}
	}
	if at < len(d.items) {
		s.Fail("player-stream", "%s: %d units too many", where, len(d.items)-at)
	}
	if !failed {
		s.Probe("ts-session")
	}
	v.decodable(where, rest, vh, had)
}

func runR03(s *core.Sim) {
	sometimesPreempt(s)
	v := &server{s: s, known: map[*packet.Packet]*mpkt{}, faults: s.Faulty, groups: 1 + s.Int(3)}
	if s.Int(10) == 9 {
		v.groups = 0
	}
	v.cache, v.model = gop.NewCache(v.groups), &gopModel{n: v.groups}
	s.Go("publisher", func() {
		for i, n := 0, s.Int(3); i < n; i++ {
			v.publish(!s.Faulty)
			s.Sleep(int64(s.Int(2000)) * 1e6)
			s.Probe("republished")
		}
		v.faults = false // the environment calms down
		v.publish(true)
		v.lock()
		v.over = true
		v.busy = false
	})
	for i, n := 0, 1+s.Int(4); i < n; i++ {
		w := &viewer{s: s, name: fmt.Sprint("player", i), ts: s.Int(2) == 1}
		v.views = append(v.views, w)
		s.Go(w.name, func() {
			s.Sleep(int64(s.Int(1500)) * 1e6)
			for k := 0; v.serve(w, k); k++ {
				if k > 200 {
					s.Fail("no-progress", "%s: lost its connection %d times", w.name, k)
				}
				if v.over && k > 0 {
					v.faults = false
				}
				s.Sleep(int64(s.Int(500)) * 1e6)
				s.Probe("rejoined")
			}
		})
	}
	stuck(s, s.Run())
}

func init() {
	files := []string{"container/", "parser/", "gop/", "amf/metadata.go", "packet/"}
	reg(&Prop{ID: "R01", Run: runR01, Quick: 400000, Files: files, Real: relayReal, Stub: netStub,
		Rule:   "each run has 2-5 outputs (FLV, TS, RTMP metadata relay, elementary-stream converter) fed the same packet objects under preemption, some of them lost to a failing connection; outputs are compared with what they are alone, packets with what was published.",
		Faults: []string{"write-error", "torn-write", "broken-packet"}, Probes: []string{"output-lost", "metadata-relayed", "announcements-waiting", "long-history"}})
	reg(&Prop{ID: "R02", Run: runR02, Quick: 80000, Files: append(files, "amf/", "sips/"), Real: append(relayReal, amfReal[0], sipReal[0]), Stub: netStub,
		Rule:   "each run mixes 3-7 unrelated sessions of all kinds (AMF, FLV, TS, SIP, GOP cache) as tasks preempted inside the library, every one judged by its own oracle and TS outputs compared with a run alone.",
		Faults: []string{"write-error", "torn-write", "short-read", "broken-packet"}, Probes: []string{"with-amf", "with-flv", "with-flv-joins", "with-ts", "with-sip", "with-foreign-amf", "with-gop", "long-history", "with-sip-writer", "with-converter"}})
	reg(&Prop{ID: "R03", Run: runR03, Quick: 160000, Files: files, Real: relayReal, Stub: append([]string{"the server that joins the parts (queues, subscriber list, lock)"}, netStub...),
		Rule:   "each run has a publisher that crashes and returns with other headers, a GOP cache, and 1-4 FLV and TS players that join late, are slow, lose their connection and join again; every session's output is read back by independent demultiplexers, and once faults stop every player has to reach the end of the stream.",
		Faults: []string{"write-error", "torn-write", "publisher-crash"}, Probes: []string{"player-lost", "rejoined", "republished", "starts-with-key-frame", "flv-session", "ts-session", "slow-player", "audio-without-header", "long-history"}})
}
