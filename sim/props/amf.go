package props

import (
	"fmt"
	"io"

	"github.com/moggle-mog/goav/amf"

	"verifsim/core"
	"verifsim/simyield"
)

var amfReal = []string{"amf (all of it: AMF0 and AMF3 encoders and decoders, metadata helpers)"}
var netStub = []string{"connections (simulated byte streams with splitting, delay, windows, cuts)", "goroutine scheduling (simulated tasks, preempted between library statements)", "clock", "runtime random numbers and map iteration order"}

// codec is what AMF0 and AMF3 codecs have in common.
type codec interface {
	amf.Encoder
	amf.Decoder
}

func newCodec(s *core.Sim) (codec, bool) {
	if s.Int(2) == 1 {
		return amf.NewEnDecAMF3(), true
	}
	return amf.NewEnDecAMF0(), false
}

// message is one value on its way: how to encode it and what must arrive.
type message struct {
	name string
	want any
	enc  func(c codec, w io.Writer) (int, error)
}

// genMessage draws a message for a codec.
func genMessage(s *core.Sim, amf3 bool) message {
	depth := s.Int(4)
	if amf3 {
		v, w := genAMF3(s, depth)
		return message{"Encode", w, func(c codec, o io.Writer) (int, error) { return c.Encode(o, v) }}
	}
	switch s.Pick(8, 1, 1, 1, 1, 2) {
	case 1:
		o, w := genFields(s, depth, func(d int) (any, any) { return genAMF0(s, d) })
		return message{"EncodeEcmaArray", w, func(c codec, x io.Writer) (int, error) { return c.(*amf.EnDecAMF0).EncodeEcmaArray(x, o) }}
	case 2:
		t := genStr(s, true)
		return message{"EncodeXmlDocument", t, func(c codec, x io.Writer) (int, error) { return c.(*amf.EnDecAMF0).EncodeXmlDocument(x, t) }}
	case 3:
		return message{"EncodeUndefined", nil, func(c codec, x io.Writer) (int, error) { return c.(*amf.EnDecAMF0).EncodeUndefined(x) }}
	case 4:
		return message{"EncodeUnsupported", nil, func(c codec, x io.Writer) (int, error) { return c.(*amf.EnDecAMF0).EncodeUnsupported(x) }}
	case 5:
		v, w := genAMF3(s, depth)
		s.Probe("amf3-inside-amf0")
		return message{"EncodeWithAMF3", w, func(c codec, x io.Writer) (int, error) { return c.(*amf.EnDecAMF0).EncodeWithAMF3(x, v) }}
	}
	v, w := genAMF0(s, depth)
	return message{"Encode", w, func(c codec, o io.Writer) (int, error) { return c.Encode(o, v) }}
}

// ---- A01: what is sent arrives

func runA01(s *core.Sim) {
	sometimesPreempt(s)
	n := 1 + s.Int(3)
	for i := 0; i < n; i++ {
		a01Session(s, i)
	}
	stuck(s, s.Run())
}

func a01Session(s *core.Sim, id int) {
	c, amf3 := newCodec(s)
	rc := c // one codec serves both directions of a connection
	if s.Int(2) == 1 {
		if rc = amf.NewEnDecAMF0(); amf3 {
			rc = amf.NewEnDecAMF3()
		}
	}
	l := s.Link(fmt.Sprint("link", id))
	var ms []message
	for i, n := 0, stretch(s, 1+s.Int(6), 2000); i < n; i++ {
		ms = append(ms, genMessage(s, amf3))
	}
	if !amf3 && s.Chance(300) {
		ms = append(ms, backReference(s, ms)...)
	}
	batch := s.Chance(200)
	batchDec := s.Chance(200)
	ends := make([]int, 0, len(ms))
	s.Go(fmt.Sprint("send", id), func() {
		for i, m := range ms {
			if s.Chance(60) {
				refused(s, id, c, amf3)
			}
			cw := &counter{w: l}
			k, err := m.enc(c, cw)
			if err != nil {
				s.Fail("encode-error", "session %d message %d: %s(%s) failed on a working writer: %v", id, i, m.name, short(m.want), err)
			}
			if k != cw.n {
				s.Fail("encode-count", "session %d message %d: %s(%s) wrote %d bytes and reports %d", id, i, m.name, short(m.want), cw.n, k)
			}
			ends = append(ends, l.Sent)
			s.Ev("sent", uint64(k))
		}
		if batch {
			var vs []any
			for i := 0; i < 3; i++ {
				var v, w any
				if amf3 {
					v, w = genAMF3(s, 1)
				} else {
					v, w = genAMF0(s, 1)
				}
				vs = append(vs, v)
				ms = append(ms, message{"EncodeBatch", w, nil})
			}
			if err := c.EncodeBatch(l, vs...); err != nil {
				s.Fail("encode-error", "session %d: EncodeBatch failed on a working writer: %v", id, err)
			}
		}
		l.Close()
	})
	s.Go(fmt.Sprint("recv", id), func() {
		check := func(i int, v any) {
			if i >= len(ms) {
				s.Fail("extra-value", "session %d: decoded %s after the last message", id, short(v))
			}
			if d := differ(v, ms[i].want); d != "" {
				s.Fail("wrong-value", "session %d message %d (%s): %s", id, i, ms[i].name, d)
			}
			s.Ev("got", uint64(l.Read_))
		}
		if batchDec {
			vs, err := rc.DecodeBatch(l)
			if err != nil {
				s.Fail("decode-error", "session %d: DecodeBatch failed on a complete stream: %v", id, err)
			}
			for i, v := range vs {
				check(i, v)
			}
			if len(vs) != len(ms) {
				s.Fail("lost-value", "session %d: DecodeBatch gave %d of %d values", id, len(vs), len(ms))
			}
			return
		}
		for i := 0; ; i++ {
			v, err := rc.Decode(l)
			if err == io.EOF && i == len(ms) && l.Ended {
				return
			}
			if err != nil {
				s.Fail("decode-error", "session %d: decoding message %d of %d failed: %v", id, i, len(ms), err)
			}
			check(i, v)
			if i < len(ends) && l.Read_ != ends[i] {
				s.Fail("decode-consumed", "session %d: decoding message %d read up to byte %d, the message ends at %d", id, i, l.Read_, ends[i])
			}
		}
	})
}

// backReference is a message that refers to an earlier one, if one can be
// referred to.
func backReference(s *core.Sim, ms []message) []message {
	var at []int
	var which []message
	n := 0
	for _, m := range ms {
		if m.name == "EncodeWithAMF3" {
			continue
		}
		if k := complexValues(m.want); k > 0 {
			at, which = append(at, n), append(which, m)
			n += k
		}
	}
	if len(at) == 0 {
		return nil
	}
	i := s.Int(len(at))
	if at[i] > 65535 {
		return nil
	}
	s.Probe("reference-written")
	return []message{{"EncodeReference", which[i].want, func(c codec, x io.Writer) (int, error) {
		return c.(*amf.EnDecAMF0).EncodeReference(x, uint16(at[i]))
	}}}
}

// complexValues counts the values that AMF0 numbers for references.
func complexValues(w any) int {
	n := 0
	switch w := w.(type) {
	case map[string]any:
		n = 1
		for _, v := range w {
			n += complexValues(v)
		}
	case typed:
		n = complexValues(w.obj)
	case []any:
		n = 1
		for _, v := range w {
			n += complexValues(v)
		}
	}
	return n
}

// refused gives the encoder something it cannot carry.
func refused(s *core.Sim, id int, c codec, amf3 bool) {
	v, what := unencodable(s, amf3)
	k := s.NewSink("refused")
	var err error
	ed, _ := c.(*amf.EnDecAMF0)
	switch s.Int(4) {
	case 0:
		err = c.EncodeBatch(k, 1, v)
	case 1:
		if o, ok := v.(amf.Object); ok && !amf3 {
			_, err = ed.EncodeEcmaArray(k, o)
			break
		}
		fallthrough
	default:
		_, err = c.Encode(k, v)
	}
	if err == nil {
		s.Fail("not-refused", "session %d: the encoder took %s and wrote %s", id, what, core.Hex(k.Data))
	}
	s.Probe("value-refused")
}

// ---- A02: a cut stream is reported as such

// encodeAll encodes messages outside any fault and returns where each ends.
func encodeAll(s *core.Sim, c codec, ms []message) ([]byte, []int) {
	k := s.NewSink("buffer")
	var ends []int
	for i, m := range ms {
		if _, err := m.enc(c, k); err != nil {
			s.Fail("encode-error", "message %d: %s failed on a working writer: %v", i, m.name, err)
		}
		ends = append(ends, len(k.Data))
	}
	return k.Data, ends
}

func runA02(s *core.Sim) {
	sometimesPreempt(s)
	n := 1 + s.Int(2)
	for i := 0; i < n; i++ {
		c, amf3 := newCodec(s)
		foreign := s.Chance(400)
		var data []byte
		var ends []int
		var wants []any
		if foreign {
			e := &fenc{s: s}
			for j, k := 0, 1+s.Int(4); j < k; j++ {
				if amf3 {
					wants = append(wants, e.v3(s.Int(4)))
				} else {
					wants = append(wants, e.v0(s.Int(4)))
				}
				ends = append(ends, len(e.b))
			}
			data = e.b
			registerPair(c)
		} else {
			var ms []message
			for j, k := 0, 1+s.Int(4); j < k; j++ {
				ms = append(ms, genMessage(s, amf3))
			}
			data, ends = encodeAll(s, c, ms)
			for _, m := range ms {
				wants = append(wants, m.want)
			}
		}
		a02Cut(s, i, c, data, ends, wants)
	}
	stuck(s, s.Run())
}

func a02Cut(s *core.Sim, id int, c codec, data []byte, ends []int, wants []any) {
	l := s.Source(fmt.Sprint("link", id), data)
	cut := len(data)
	cutErr := io.EOF
	if s.FaultChance(900) {
		if s.Chance(200) { // exactly between two values
			cut = append([]int{0}, ends...)[s.Int(len(ends)+1)]
			s.Probe("cut-between-values")
		} else {
			cut = s.Int(len(data) + 1)
		}
		cutErr = append([]error{io.EOF}, core.ReadErrors...)[s.Int(1+len(core.ReadErrors))]
		l.Cut(cut, cutErr)
		if cutErr == core.ErrTimeout && s.Chance(600) {
			l.CutOnce(cut, cutErr)
		}
	}
	whole := 0
	for whole < len(ends) && ends[whole] <= cut {
		whole++
	}
	at := 0
	if whole > 0 {
		at = ends[whole-1]
	}
	clean := cut == at && cutErr == io.EOF
	if cut > at {
		s.Probe("cut-inside-a-value")
	}
	verdict := func(err error, batch bool) {
		where := fmt.Sprintf("session %d: stream of %d bytes cut at %d (last whole value ends at %d) with %v", id, len(data), cut, at, cutErr)
		switch {
		case clean && batch:
			if err != nil {
				s.Fail("clean-end-as-error", "%s: DecodeBatch reports %v", where, err)
			}
		case clean:
			if err != io.EOF {
				s.Fail("clean-end-as-error", "%s: Decode reports %v instead of the end of the stream", where, err)
			}
		case err == nil:
			s.Fail("cut-not-reported", "%s: no error", where)
		case err == io.EOF:
			s.Fail("cut-as-clean-end", "%s: reported as a clean end of the stream", where)
		}
	}
	batch := s.Chance(300)
	s.Go(fmt.Sprint("recv", id), func() {
		if batch {
			vs, err := c.DecodeBatch(l)
			verdict(err, true)
			if len(vs) != whole {
				s.Fail("lost-value", "session %d: DecodeBatch gave %d values, %d arrived whole", id, len(vs), whole)
			}
			for i, v := range vs {
				if d := differ(v, wants[i]); d != "" {
					s.Fail("wrong-value", "session %d message %d: %s", id, i, d)
				}
			}
			return
		}
		for i := 0; ; i++ {
			v, err := c.Decode(l)
			s.Logf("decode %d: %v", i, err)
			if i < whole {
				if err != nil {
					s.Fail("decode-error", "session %d: message %d arrived whole, decoding fails: %v", id, i, err)
				}
				if d := differ(v, wants[i]); d != "" {
					s.Fail("wrong-value", "session %d message %d: %s", id, i, d)
				}
				continue
			}
			verdict(err, false)
			s.Ev("end", uint64(i))
			return
		}
	})
}

// ---- A03: hostile input is contained

func registerPair(c codec) {
	h := func(d *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
		a, err := d.Decode(r)
		if err != nil {
			return nil, err
		}
		b, err := d.Decode(r)
		if err != nil {
			return nil, err
		}
		return amf.Array{a, b}, nil
	}
	one := func(d *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
		a, err := d.Decode(r)
		if err != nil {
			return nil, err
		}
		return amf.Array{a}, nil
	}
	switch x := c.(type) {
	case *amf.EnDecAMF0:
		x.RegisterExternalHandler("sim.Pair", h)
		x.RegisterExternalHandler("sim.One", one)
	case *amf.EnDecAMF3:
		x.RegisterExternalHandler("sim.Pair", h)
		x.RegisterExternalHandler("sim.One", one)
	}
}

const hostileMax = 64 << 10

// mutate damages a stream the way a hostile or broken peer may.
func mutate(s *core.Sim, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i, n := 0, 1+s.Int(4); i < n && len(b) > 0; i++ {
		p := s.Int(len(b))
		switch s.Int(8) {
		case 0:
			b[p] ^= 1 << s.Int(8)
		case 1:
			b[p] = []byte{0, 1, 0x7f, 0x80, 0xff, 3, 9, 10, 17, 8, 16, 7, 12, 11, 6}[s.Int(15)]
		case 2: // length fields
			for j := p; j < len(b) && j < p+1+s.Int(4); j++ {
				b[j] = 0xff
			}
		case 3:
			b = b[:p]
		case 4:
			q := p + s.Int(len(b)-p)
			b = append(b[:p], b[q:]...)
		case 5:
			q := p + s.Int(min(len(b)-p, 300))
			b = append(b[:q:q], b[p:]...)
		case 6:
			b = append(b[:p:p], append(s.Bytes(s.Size(40)), b[p:]...)...)
		case 7:
			b[p] += byte(1 + s.Int(3))
		}
	}
	if len(b) > hostileMax {
		b = b[:hostileMax]
	}
	return b
}

func hostileAMF(s *core.Sim, amf3 bool) []byte {
	switch s.Int(6) {
	case 0:
		return s.Bytes(s.Size(2000))
	case 1: // deep or wide nesting, cut off
		units := [][]byte{
			{10, 0, 0, 0, 1}, {3, 0, 1, 'a'}, {8, 0, 0, 0, 1, 0, 1, 'a'}, {16, 0, 0, 0, 1, 'a'}, {17, 10, 0x13, 1, 3, 'a'}, {10, 0xff, 0xff, 0xff, 0xff}, {12, 0x7f, 0xff, 0xff, 0xff},
		}
		if amf3 {
			units = [][]byte{{9, 3, 1}, {9, 1, 3, 'a'}, {10, 0x13, 1, 3, 'a'}, {10, 0x0b, 1, 3, 'a'}, {9, 0xff, 0xff, 0xff, 0xff, 1}, {10, 1}, {10, 0xff, 0xff, 0xff, 0xf3, 1}, {12, 0xff, 0xff, 0xff, 0xff}, {6, 0xff, 0xff, 0xff, 0xff}}
		}
		u := units[s.Int(len(units))]
		if amf3 && s.Int(4) == 3 { // wrapped collections through the string table
			b := append([]byte{10, 7, 67}, "flex.messaging.io.ArrayCollection"...)
			for n := s.Int(3000); n > 0; n-- {
				b = append(b, 10, 7, 0)
			}
			return b
		}
		var b []byte
		for n := 1 + s.Size(hostileMax/len(u)-1); n > 0; n-- {
			b = append(b, u...)
		}
		s.Probe("deep-nesting")
		return b
	case 2: // well-formed markers in a random order
		var b []byte
		for n := s.Size(400); n > 0; n-- {
			b = append(b, byte(s.Int(18)))
			if s.Chance(500) {
				b = append(b, byte(s.Int(4)), byte(s.Int(256)))
			}
		}
		return b
	}
	e := &fenc{s: s}
	for j, k := 0, 1+s.Int(4); j < k; j++ {
		if amf3 {
			e.v3(s.Int(5))
		} else {
			e.v0(s.Int(5))
		}
	}
	return mutate(s, e.b)
}

func runA03(s *core.Sim) {
	s.Faulty = true
	n := 1 + s.Int(2)
	for i := 0; i < n; i++ {
		id := i
		c, amf3 := newCodec(s)
		registerPair(c)
		bad := hostileAMF(s, amf3)
		l := s.Source(fmt.Sprint("hostile", id), bad)
		var after []message
		for j, k := 0, 1+s.Int(2); j < k; j++ {
			after = append(after, genMessage(s, amf3))
		}
		helper := s.Int(6)
		s.Go(fmt.Sprint("victim", id), func() {
			budget := int64(200000 + 2000*len(bad))
			limit := uint64(1<<20 + 1200*len(bad))
			s.Fault("hostile-bytes")
			s.Alloc(limit, fmt.Sprintf("decoding %d hostile bytes", len(bad)), func() {
				s.Budget(budget, fmt.Sprintf("decoding %d hostile bytes", len(bad)), func() {
					if helper < 2 {
						// packets of one connection go through the metadata helpers
						for p, j := bad, 0; j < 8; j++ {
							var out []byte
							var err error
							if helper == 0 {
								out, err = amf.AddMetaHeader(p, c)
							} else {
								out, err = amf.DelMetaHeader(p, c)
							}
							s.Logf("metadata helper: %d bytes, %v", len(out), err)
							if len(p) == 0 {
								break
							}
							p = p[min(len(p), 1+s.Int(40)):]
						}
						return
					}
					for j := 0; j <= len(bad); j++ {
						_, err := c.Decode(l)
						s.Logf("decode %d: error=%v", j, err != nil)
						if err != nil {
							s.Probe("hostile-refused")
							return
						}
					}
					s.Fail("value-from-nothing", "%d bytes decoded into more than %d values", len(bad), len(bad))
				})
			})
			// the damage ends with the input: good messages still decode
			good, _ := encodeAll(s, c, after)
			g := s.Source(fmt.Sprint("good", id), good)
			for j, m := range after {
				v, err := c.Decode(g)
				if err != nil {
					s.Fail("decoder-poisoned", "after hostile input, good message %d fails: %v", j, err)
				}
				if d := differ(v, m.want); d != "" {
					s.Fail("decoder-poisoned", "after hostile input, good message %d is wrong: %s", j, d)
				}
			}
		})
	}
	if s.Chance(500) { // an unrelated connection, at the same time
		a01Session(s, 9)
	}
	stuck(s, s.Run())
}

// ---- A04: failed encoding is reported

func runA04(s *core.Sim) {
	for r, n := 0, 1+s.Int(4); r < n; r++ {
		c, amf3 := newCodec(s)
		var enc func(w io.Writer) error
		name := "EncodeBatch"
		if s.Chance(250) {
			var vs []any
			for i, k := 0, s.Int(5); i < k; i++ {
				var v any
				if amf3 {
					v, _ = genAMF3(s, 2)
				} else {
					v, _ = genAMF0(s, 2)
				}
				vs = append(vs, v)
			}
			enc = func(w io.Writer) error { return c.EncodeBatch(w, vs...) }
		} else if !amf3 && s.Chance(100) {
			name = "EncodeReference"
			ref := uint16(s.Int(1 << 16))
			enc = func(w io.Writer) error { _, err := c.(*amf.EnDecAMF0).EncodeReference(w, ref); return err }
			s.Probe("reference-written")
		} else {
			m := genMessage(s, amf3)
			name = m.name
			enc = func(w io.Writer) error { _, err := m.enc(c, w); return err }
		}
		order := uint64(s.U32()) // one map order for every attempt
		try := func(k *core.Sink) error {
			simyield.SetRand(order)
			return enc(k)
		}
		ref := s.NewSink("reference")
		if err := try(ref); err != nil {
			s.Fail("encode-error", "%s failed on a working writer: %v", name, err)
		}
		full := ref.Data
		for a, m := 0, 1+s.Int(3); a < m; a++ {
			k := s.NewSink("sink")
			planned := k.PlanFault(900, len(full))
			failAt := k.FailAt
			err := try(k)
			fails := planned && failAt < len(full)
			s.Ev("attempt", uint64(len(k.Data)))
			switch {
			case fails && err == nil:
				s.Fail("failure-not-reported", "%s: the writer failed at byte %d of %d, no error reported", name, failAt, len(full))
			case !fails && err != nil:
				s.Fail("encode-error", "%s failed on a working writer: %v", name, err)
			case !fails && string(k.Data) != string(full):
				s.Fail("not-repeatable", "%s wrote something else the second time: %s", name, firstDiff(k.Data, full))
			}
			if !isPrefix(k.Data, full) {
				s.Fail("written-after-failure", "%s: the writer failed at byte %d of %d and then holds %d bytes that are no prefix: %s", name, failAt, len(full), len(k.Data), firstDiff(k.Data, full))
			}
		}
		k := s.NewSink("later")
		if err := try(k); err != nil || string(k.Data) != string(full) {
			s.Fail("encoder-poisoned", "%s after a failure: error %v, %s", name, err, firstDiff(k.Data, full))
		}
	}
}

// ---- A05: what other implementations send is understood

func runA05(s *core.Sim) {
	sometimesPreempt(s)
	n := 1 + s.Int(2)
	for i := 0; i < n; i++ {
		id := i
		c, amf3 := newCodec(s)
		registerPair(c)
		e := &fenc{s: s}
		var wants []any
		var ends []int
		for j, k := 0, stretch(s, 1+s.Int(7), 1500); j < k; j++ {
			if amf3 {
				wants = append(wants, e.v3(s.Int(4)))
			} else {
				wants = append(wants, e.v0(s.Int(4)))
			}
			ends = append(ends, len(e.b))
		}
		bad := s.Chance(120)
		if bad && s.Chance(500) {
			if v, end := e.badInside(amf3); end > 0 {
				wants = append(wants, v)
				ends = append(ends, end)
			}
		} else if bad {
			e.badRef(amf3)
		}
		l := s.Link(fmt.Sprint("link", id))
		s.Go(fmt.Sprint("foreign", id), func() {
			for p := 0; p < len(e.b); {
				k := min(len(e.b)-p, 1+s.Int(200+len(e.b)/50))
				l.Write(e.b[p : p+k])
				p += k
			}
			l.Close()
		})
		batch := s.Chance(200)
		s.Go(fmt.Sprint("recv", id), func() {
			var got []any
			var err error
			if batch {
				got, err = c.DecodeBatch(l)
				if bad {
					if err == nil {
						s.Fail("bad-reference-accepted", "session %d: a reference to nothing of its kind is decoded as %s; bytes %s", id, short(got), core.Hex(e.b))
					}
				} else if err != nil {
					s.Fail("decode-error", "session %d: conforming stream refused after %d values: %v; bytes %s", id, len(got), err, core.Hex(e.b))
				}
			} else {
				for j := 0; ; j++ {
					v, err := c.Decode(l)
					if err == io.EOF && l.Ended && !(bad && j == len(wants)) {
						break
					}
					if bad && j == len(wants) {
						if err == nil || err == io.EOF {
							s.Fail("bad-reference-accepted", "session %d: a reference to nothing of its kind is decoded as %s; bytes %s", id, short(v), core.Hex(e.b))
						}
						break
					}
					if err != nil {
						s.Fail("decode-error", "session %d: value %d of a conforming stream refused: %v; bytes %s", id, j, err, core.Hex(e.b))
					}
					got = append(got, v)
					if j < len(ends) && l.Read_ != ends[j] {
						s.Fail("decode-consumed", "session %d: value %d read up to byte %d, it ends at %d", id, j, l.Read_, ends[j])
					}
				}
			}
			for b := make([]byte, 4096); bad; { // the sender goes on after a refusal
				if _, err := l.Read(b); err != nil {
					break
				}
			}
			if len(got) != len(wants) {
				s.Fail("lost-value", "session %d: %d values of %d", id, len(got), len(wants))
			}
			// compared at the end: later values must not disturb earlier ones
			for j := range got {
				if d := differ(got[j], wants[j]); d != "" {
					s.Fail("wrong-value", "session %d value %d: %s; bytes %s", id, j, d, core.Hex(e.b))
				}
			}
			s.Ev("refs", uint64(e.refs))
		})
	}
	stuck(s, s.Run())
}

func init() {
	files := []string{"amf/"}
	reg(&Prop{ID: "A01", Run: runA01, Quick: 120000, Files: files, Real: amfReal, Stub: netStub,
		Rule:   "each run draws 1-3 connections, per connection a sequence of typed values, link splitting, latency, window and stalls, and a schedule of sender and receiver tasks with preemption inside the codec.",
		Faults: []string{"short-read", "empty-read", "link-stall"}, Probes: []string{"amf3-inside-amf0", "string-at-length-limit", "value-refused", "large-container", "reference-written", "long-history"}})
	reg(&Prop{ID: "A02", Run: runA02, Quick: 800000, Files: files, Real: amfReal, Stub: netStub,
		Rule:   "each run draws sequences of values (own and foreign encodings) and ends the connection at a drawn byte, between or inside values, by closing it or with an error.",
		Faults: []string{"short-read", "stream-cut", "connection-reset", "read-timeout"}, Probes: []string{"cut-between-values", "cut-inside-a-value"}})
	reg(&Prop{ID: "A03", Run: runA03, Quick: 80000, Files: files, Real: amfReal, Stub: netStub,
		Rule:   "each run draws hostile streams (damaged foreign encodings, random bytes, deep nesting, inflated lengths) of at most 64 KiB, decodes them under a statement and allocation budget next to a good connection, and then decodes good messages with the same decoder.",
		Faults: []string{"hostile-bytes", "short-read"}, Probes: []string{"deep-nesting", "hostile-refused"}})
	reg(&Prop{ID: "A04", Run: runA04, Quick: 1200000, Files: files, Real: amfReal, Stub: netStub,
		Rule:   "each run encodes values onto a writer that fails at a drawn byte, with or without taking part of the write, and may work again for later writes; every attempt uses the same map iteration order.",
		Faults: []string{"write-error", "torn-write"}, Probes: []string{"reference-written"}})
	reg(&Prop{ID: "A05", Run: runA05, Quick: 800000, Files: files, Real: amfReal, Stub: netStub,
		Rule:   "each run draws streams from an independent encoder that uses references, dynamic members, externalizable objects and every integer length, and delivers them split and delayed to 1-2 decoders under preemption.",
		Faults: []string{"short-read"}, Probes: []string{"amf0-reference", "amf3-string-reference", "amf3-trait-reference", "amf3-object-reference", "amf3-array-reference", "amf3-date-reference", "amf3-bytes-reference", "amf3-xml-reference", "amf3-dynamic", "amf3-associative-array", "amf3-negative-integer", "array-collection", "flex-small-message", "registered-handler", "amf3-inside-amf0", "bad-reference", "undecodable-inside", "unknown-kind", "external-trait-reference", "value-of-many-kilobytes", "long-history"}})
}
