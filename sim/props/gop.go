package props

import (
	"errors"
	"fmt"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"

	"verifsim/core"
)

var gopReal = []string{"gop (cache, ring, frame and group storage)", "container/flv (demuxer)", "packet"}

const gopLimit = 1024

// gopModel is what a joining player has to receive.
type gopModel struct {
	n          int
	md, vh, ah *packet.Packet
	gops       [][]*packet.Packet
}

// put says whether the cache has to take the packet.
func (g *gopModel) put(m *mpkt) bool {
	switch {
	case m.p.Type == packet.PktMetadata:
		g.md = m.p
	case m.p.Type == packet.PktAudio:
		if m.seq {
			g.ah = m.p
		}
	case m.seq:
		g.vh = m.p
	case m.kind == "other frame" || g.n == 0:
	case m.key:
		g.gops = append(g.gops, []*packet.Packet{m.p})
		if len(g.gops) > g.n {
			g.gops = g.gops[1:]
		}
	default:
		l := len(g.gops) - 1
		if l < 0 || len(g.gops[l]) >= gopLimit {
			return false
		}
		g.gops[l] = append(g.gops[l], m.p)
	}
	return true
}

func (g *gopModel) join() []*packet.Packet {
	var l []*packet.Packet
	for _, p := range []*packet.Packet{g.md, g.vh, g.ah} {
		if p != nil {
			l = append(l, p)
		}
	}
	for _, x := range g.gops {
		l = append(l, x...)
	}
	return l
}

// player takes packets, fails where planned, and may be slow.
type player struct {
	s      *core.Sim
	got    []*packet.Packet
	failAt int
	err    error
	slow   int64
	failed bool
	after  int
}

func (p *player) Write(x *packet.Packet) error {
	if p.failed {
		p.after++
	}
	if p.slow > 0 {
		p.s.Sleep(p.slow)
	} else if p.slow < 0 {
		p.s.Yield()
	}
	if p.failAt >= 0 && len(p.got) >= p.failAt {
		p.failed = true
		p.s.Fault("subscriber-error")
		p.s.Logf("subscriber fails at packet %d", len(p.got))
		return p.err
	}
	p.got = append(p.got, x)
	return nil
}

// judge compares what a player got with what it had to get.
func (p *player) judge(where string, want []*packet.Packet, orig map[*packet.Packet]*packet.Packet, err error) {
	s := p.s
	if p.failed {
		if err == nil {
			s.Fail("failure-not-reported", "%s: the subscriber failed after %d packets, no error reported", where, len(p.got))
		}
		if !errors.Is(err, p.err) {
			s.Fail("failure-not-reported", "%s: the subscriber failed with %q, %q is reported", where, p.err, err)
		}
		if p.after > 0 {
			s.Fail("written-after-failure", "%s: %d more packets sent after the subscriber failed", where, p.after)
		}
	} else if err != nil {
		s.Fail("join-error", "%s: %v", where, err)
	}
	if len(p.got) > len(want) || !p.failed && len(p.got) != len(want) {
		s.Fail("join-sequence", "%s: %d packets, want %d", where, len(p.got), len(want))
	}
	for i, g := range p.got {
		if g == nil {
			s.Fail("join-sequence", "%s: packet %d is nil", where, i)
		}
		if d := pktDiff(g, orig[want[i]]); d != "" {
			s.Fail("join-sequence", "%s: packet %d of %d is not the one published: %s", where, i, len(want), d)
		}
	}
}

type gopOpts struct {
	fails bool // subscribers fail
	long  bool // groups reach the limit
}

// gopPool draws packets a publisher sends; several caches may share them.
func gopPool(s *core.Sim, d *flv.Demuxer) (key, inter, vh, ah, aud, md []*mpkt) {
	id := uint32(0)
	mk := func(typ int, kind string, keyf, seq bool, b ...byte) *mpkt {
		id++
		p := &packet.Packet{Type: typ, TimeStamp: id, Baseline: s.U32(), StreamID: uint32(s.Int(3)), Data: append(b, s.Bytes(s.Int(30))...)}
		m := &mpkt{p: p, kind: kind, key: keyf, seq: seq}
		if err := d.Demux(p); err != nil {
			s.Fail("demux-error", "%s refused: %v", kind, err)
		}
		return m
	}
	for i, n := 0, 2+s.Int(6); i < n; i++ {
		key = append(key, mk(0, "key frame", true, false, 0x17, 1, 0, 0, byte(s.Int(2))))
	}
	for i, n := 0, 3+s.Int(10); i < n; i++ {
		inter = append(inter, mk(0, "inter frame", false, false, 0x27, 1, 0, 0, byte(s.Int(2))))
	}
	for i, n := 0, 2+s.Int(2); i < n; i++ {
		vh = append(vh, mk(0, "AVC sequence header", true, true, 0x17, 0, 0, 0, 0))
		ah = append(ah, mk(1, "AAC sequence header", false, true, 0xaf, 0))
		aud = append(aud, mk(1, "AAC frame", false, false, 0xaf, 1))
		md = append(md, mk(2, "metadata", false, false, 2, 0, 1, 'x'))
	}
	aud = append(aud, mk(1, "MP3 frame", false, false, 0x2f, byte(s.Int(2))))
	if s.Chance(300) {
		inter = append(inter, mk(0, "end of sequence", false, false, 0x27, 2, 0, 0, 0))
		key = append(key, mk(0, "end of sequence", true, false, 0x17, 2, 0, 0, 0)) // by its frame type a key frame
	}
	inter = append(inter, mk(0, "other frame", false, false, byte(3+s.Int(3))<<4|7, byte(s.Int(2)), 0, 0, 0))
	return
}

func gopScenario(o gopOpts) core.Scenario {
	return func(s *core.Sim) {
		sometimesPreempt(s)
		key, inter, vh, ah, aud, md := gopPool(s, flv.NewDemuxer())
		orig := map[*packet.Packet]*packet.Packet{}
		for _, l := range [][]*mpkt{key, inter, vh, ah, aud, md} {
			for _, m := range l {
				orig[m.p] = clonePkt(m.p)
			}
		}
		for i, n := 0, 1+s.Int(2); i < n; i++ {
			id := i
			g := &gopModel{n: s.Int(5)}
			if s.Int(8) == 7 {
				g.n = 5 + s.Int(12)
			}
			if o.long && g.n == 0 {
				g.n = 1
			}
			c := gop.NewCache(g.n)
			busy := false // the library leaves locking to its user
			lock := func() {
				s.Block(func() bool { return !busy })
				busy = true
			}
			live := 1
			s.Go(fmt.Sprint("publisher", id), func() {
				defer func() { live-- }()
				put := func(m *mpkt) {
					lock()
					ok := g.put(m)
					err := c.Write(m.p)
					busy = false
					s.Ev(m.kind, uint64(m.p.TimeStamp))
					if ok != (err == nil) {
						s.Fail("cache-verdict", "cache %d of %d groups, %s: %v", id, g.n, m.kind, err)
					}
					if !ok {
						s.Probe("packet-refused")
					}
				}
				pick := func(l []*mpkt) *mpkt { return l[s.Int(len(l))] }
				steps := stretch(s, 3+s.Int(40), 5000)
				for j := 0; j < steps; j++ {
					switch s.Pick(6, 20, 2, 2, 4, 2) {
					case 0:
						put(pick(key))
						if o.long && s.Chance(300) {
							k := gopLimit - 3 + s.Int(8)
							m := pick(inter)
							s.Probe("group-reaches-limit")
							for ; k > 0; k-- {
								put(m)
							}
						}
					case 1:
						if s.FaultChance(60) {
							s.Fault("packet-loss")
							continue
						}
						put(pick(inter))
					case 2:
						put(pick(vh))
					case 3:
						put(pick(ah))
					case 4:
						put(pick(aud))
					case 5:
						put(pick(md))
					}
				}
			})
			players := 1 + s.Int(4)
			for j := 0; j < players; j++ {
				who := fmt.Sprintf("player%d-%d", id, j)
				s.Go(who, func() {
					for k, m := 0, stretch(s, 1+s.Int(4), 300); k < m; k++ {
						for w := s.Int(12); w > 0; w-- {
							s.Yield()
						}
						p := &player{s: s, failAt: -1, slow: int64(s.Int(3)-1) * 1e6}
						if p.slow > 0 {
							s.Probe("slow-subscriber")
							if o.long {
								p.slow = -1
							}
						}
						lock()
						want := g.join()
						if o.fails && s.FaultChance(600) {
							p.failAt = s.Int(len(want) + 1)
							p.err = core.WriteErrors[s.Int(len(core.WriteErrors))]
						}
						err := c.SendTo(p)
						busy = false
						s.Ev("join", uint64(len(p.got)))
						p.judge(fmt.Sprintf("%s join %d of cache with %d groups", who, k, g.n), want, orig, err)
						if o.long {
							if m := 3 + g.n*gopLimit; len(p.got) > m {
								s.Fail("unbounded", "%s: %d packets, the bound is %d", who, len(p.got), m)
							}
							for _, x := range g.gops {
								if len(x) == gopLimit {
									s.Probe("full-group-sent")
								}
							}
						}
						s.State(uint64(g.n), uint64(len(g.gops)), uint64(min(len(want), 20)))
					}
				})
			}
		}
		stuck(s, s.Run())
		for p, q := range orig {
			if d := pktDiff(p, q); d != "" {
				s.Fail("packet-modified", "%s", d)
			}
		}
	}
}

func init() {
	files := []string{"gop/"}
	reg(&Prop{ID: "G01", Run: gopScenario(gopOpts{}), Quick: 800000, Files: files, Real: gopReal, Stub: netStub,
		Rule:   "each run has 1-2 publishers filling caches of 0-16 groups from shared packets, with drawn losses, and 1-4 players per cache joining at scheduler-chosen moments; a list model says what each has to receive.",
		Faults: []string{"packet-loss"}, Probes: []string{"packet-refused", "slow-subscriber", "long-history"}})
	reg(&Prop{ID: "G02", Run: gopScenario(gopOpts{fails: true}), Quick: 800000, Files: files, Real: gopReal, Stub: netStub,
		Rule:   "as G01, with subscribers that fail at a drawn packet with a drawn error while other players of the same cache and of caches sharing the packets go on.",
		Faults: []string{"subscriber-error", "packet-loss"}, Probes: []string{"slow-subscriber", "long-history"}})
	reg(&Prop{ID: "G03", Run: gopScenario(gopOpts{long: true, fails: true}), Quick: 80000, Files: files, Real: gopReal, Stub: netStub,
		Rule:   "as G02, with groups of pictures drawn around and beyond the limit of 1024 packets.",
		Faults: []string{"subscriber-error"}, Probes: []string{"packet-refused", "group-reaches-limit", "full-group-sent"}})
}
