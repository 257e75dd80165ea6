package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verifsim/core"
)

var words = []string{"a", "tcUrl", "app", "width", "视频", "x\x00y", "duration", "onMetaData", "@setDataFrame", "_result", "k"}

func genStr(s *core.Sim, big bool) string {
	switch s.Pick(3, 4, 4, 2, 1) {
	case 0:
		return ""
	case 1:
		return words[s.Int(len(words))]
	case 2:
		return string(s.Bytes(s.Int(40)))
	case 3:
		return string(s.Bytes(s.Size(3000)))
	}
	if !big || s.Probes["string-at-length-limit"] >= 2 {
		return string(s.Bytes(130))
	}
	// sizes at the limits of the length fields
	n := []int{127, 128, 63, 64, 8191, 8192, 65534, 65535, 65536, 70000, 16383, 131072, 300000}[s.Int(13)]
	s.Probe("string-at-length-limit")
	if n > 70000 {
		s.Extend(8)
		return strings.Repeat(string(s.Bytes(251)), n/251+1)[:n]
	}
	return string(s.Bytes(n))
}

// genLong is a string of many kilobytes, in few values.
func genLong(s *core.Sim) string {
	if s.Int(600) < 599 || s.Probes["value-of-many-kilobytes"] >= 2 {
		return genStr(s, false)
	}
	s.Probe("value-of-many-kilobytes")
	s.Extend(8)
	n := []int{4096, 8191, 8192, 16383, 16384, 32768, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 200000, 300000}[s.Int(15)]
	return strings.Repeat(string(s.Bytes(251)), n/251+1)[:n]
}

func genKey(s *core.Sim, i int) string {
	switch s.Int(10) {
	case 9:
		return string(s.Bytes(1+s.Int(20))) + string(rune('a'+i))
	case 8:
		return fmt.Sprint(i)
	case 7:
		return string(rune('a'+i)) + string(s.Bytes(1+s.Int(300)))
	case 6:
		return string(rune('A'+i)) + words[s.Int(len(words))]
	}
	return words[(s.Int(3)+i*3)%len(words)] + string(rune('a'+i))
}

var floats = []float64{0, 1, -1, 0.5, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1e300, 5e-324, 1 << 53, -123456.789}

func genFloat(s *core.Sim) float64 {
	if s.Chance(300) {
		f := math.Float64frombits(s.U64())
		return f
	}
	return floats[s.Int(len(floats))]
}

// genInt returns an integer in one of the integer types, and its value.
func genInt(s *core.Sim, amf3 bool) (any, any) {
	var v int64
	switch s.Int(6) {
	case 0:
		v = int64(s.Int(300)) - 100
	case 1:
		v = []int64{0, 127, 128, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<29 - 1, 1 << 29, 1<<31 - 1, 1<<32 - 1, 1 << 40, 1<<53 + 1}[s.Int(15)]
	case 2:
		v = -[]int64{1, 2, 127, 128, 129, 16384, 1 << 21, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1 << 31, 1 << 40}[s.Int(12)]
	default:
		v = int64(s.U32())
		if s.Chance(500) {
			v = -v
		}
	}
	var x any
	wide := false
	switch s.Int(10) {
	case 0:
		x, v = int(v), int64(int(v))
	case 1:
		x, v = int8(v), int64(int8(v))
	case 2:
		x, v = int16(v), int64(int16(v))
	case 3:
		x, v = int32(v), int64(int32(v))
	case 4:
		x, wide = v, true
	case 5:
		x, v = uint8(v), int64(uint8(v))
	case 6:
		x, v = uint16(v), int64(uint16(v))
	case 7:
		x, v = uint32(v), int64(uint32(v))
	case 8:
		if v < 0 {
			v = -v
		}
		x = uint(v)
	case 9:
		if v < 0 {
			v = -v
		}
		x, wide = uint64(v), true
	}
	if amf3 && !wide && v >= -1<<28 && v < 1<<28 {
		if v < 0 {
			return x, int32(v)
		}
		return x, uint32(v)
	}
	return x, float64(v)
}

func genTime(s *core.Sim) time.Time {
	sec := int64(s.U32())
	if s.Chance(300) {
		sec = -sec
	}
	if s.Chance(60) { // far away: years 1 to 9999
		sec = -62135596800 + int64(s.U64()%315537897600)
		s.Probe("date-far-away")
	}
	t := time.Unix(sec, 0)
	if s.Chance(500) { // AMF counts milliseconds
		t = time.Unix(sec, int64(s.Int(1000))*1e6)
		s.Probe("date-with-milliseconds")
	}
	if s.Chance(300) {
		return t.In(time.FixedZone("z", 3600*(s.Int(27)-13)))
	}
	return t.UTC()
}

func genFields(s *core.Sim, depth int, sub func(int) (any, any)) (amf.Object, map[string]any) {
	o, w := amf.Object{}, map[string]any{}
	n := s.Size(6)
	if n > 8 {
		n = 8
	}
	for i := 0; i < n; i++ {
		k := genKey(s, i)
		v, x := sub(depth - 1)
		o[k], w[k] = v, x
	}
	return o, w
}

// genMany returns a container of many small values.
func genMany(s *core.Sim, amf3 bool) (any, any) {
	n := []int{31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300}[s.Int(11)]
	s.Probe("large-container")
	if s.Chance(500) {
		o, w := amf.Object{}, map[string]any{}
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			o[k], w[k] = i%2 == 0, i%2 == 0
		}
		return o, w
	}
	a, w := amf.Array{}, []any{}
	for i := 0; i < n; i++ {
		a, w = append(a, i%3 == 0), append(w, i%3 == 0)
	}
	if amf3 {
		return a, dense{w, nil}
	}
	return a, w
}

// unencodable returns something that has to be refused.
func unencodable(s *core.Sim, amf3 bool) (any, string) {
	var v any
	var what string
	k := s.Int(9)
	if amf3 && k > 5 {
		k -= 6
	}
	switch k {
	case 0:
		v, what = map[string]int{"a": 1}, "a map that is no Object"
	case 1:
		v, what = func() {}, "a function"
	case 2:
		v, what = struct{ A int }{1}, "a structure"
	case 3:
		v, what = new(int), "a pointer"
	case 4:
		v, what = complex(1, 2), "a complex number"
	case 5:
		v, what = (*int)(nil), "a nil pointer"
	case 6:
		v, what = amf.Object{"": 1.0}, "a property without a name"
	case 7:
		v, what = amf.Object{string(make([]byte, 65536+s.Int(3))): 1.0}, "a property name of more than 65535 bytes"
	case 8:
		v, what = amf.TypedObject{Type: string(make([]byte, 65536+s.Int(3)))}, "a type name of more than 65535 bytes"
	}
	for s.Chance(500) {
		switch s.Int(3) {
		case 0:
			v = amf.Array{true, v, "z"}
		case 1:
			v = amf.Object{"in": v}
		case 2:
			v = amf.TypedObject{Type: "T", Object: amf.Object{"in": v}}
		}
		what += ", nested"
	}
	return v, what
}

// genAMF0 returns a value the AMF0 encoder takes and what decoding must give.
func genAMF0(s *core.Sim, depth int) (any, any) {
	k := 7
	if depth > 0 {
		k = 12
	}
	switch s.Int(k) {
	case 0:
		return nil, nil
	case 1:
		b := s.Chance(500)
		return b, b
	case 2:
		f := genFloat(s)
		return f, f
	case 3:
		return genInt(s, false)
	case 4:
		x := genStr(s, depth >= 0)
		return x, x
	case 5:
		t := genTime(s)
		return t, float64(t.UnixMilli())
	case 6:
		f := float32(s.Int(1000)) / 8
		return f, float64(f)
	case 7, 8:
		o, w := genFields(s, depth, func(d int) (any, any) { return genAMF0(s, d) })
		return o, w
	case 9:
		o, w := genFields(s, depth, func(d int) (any, any) { return genAMF0(s, d) })
		t := genStr(s, false)
		return amf.TypedObject{Type: t, Object: o}, typed{t, w}
	case 10:
		n := s.Size(6) % 9
		if s.Chance(30) {
			return genMany(s, false)
		}
		a, w := amf.Array{}, []any{}
		for i := 0; i < n; i++ {
			v, x := genAMF0(s, depth-1)
			a, w = append(a, v), append(w, x)
		}
		return a, w
	}
	switch s.Int(3) {
	case 0:
		n := s.Int(3)
		return []string{"avc1", "mp4a"}[:n], []any{"avc1", "mp4a"}[:n]
	case 1:
		v := [2]int{s.Int(9), -s.Int(9)}
		return v, []any{float64(v[0]), float64(v[1])}
	}
	b := s.Bytes(s.Int(20))
	w := []any{}
	for _, x := range b {
		w = append(w, float64(x))
	}
	return b, w
}

// genAMF3 is genAMF0 for the AMF3 encoder.
func genAMF3(s *core.Sim, depth int) (any, any) {
	k := 8
	if depth > 0 {
		k = 13
	}
	switch s.Int(k) {
	case 0:
		return nil, nil
	case 1:
		b := s.Chance(500)
		return b, b
	case 2:
		f := genFloat(s)
		return f, f
	case 3, 4:
		return genInt(s, true)
	case 5:
		x := genStr(s, true)
		return x, x
	case 6:
		t := genTime(s)
		return t, t
	case 7:
		b := s.Bytes(s.Size(400))
		return b, b
	case 8, 9:
		o, w := genFields(s, depth, func(d int) (any, any) { return genAMF3(s, d) })
		if s.Chance(50) {
			o[""], w[""] = "nameless", "nameless"
		}
		return o, w
	case 10:
		o, w := genFields(s, depth, func(d int) (any, any) { return genAMF3(s, d) })
		return amf.TypedObject{Type: genStr(s, false), Object: o}, w
	case 11:
		n := s.Size(6) % 9
		if s.Chance(30) {
			return genMany(s, true)
		}
		a, w := amf.Array{}, []any{}
		for i := 0; i < n; i++ {
			v, x := genAMF3(s, depth-1)
			a, w = append(a, v), append(w, x)
		}
		return a, dense{w, nil}
	}
	v := []string{"p", "q", ""}
	return v, dense{[]any{"p", "q", ""}, nil}
}

// ---- an independent encoder: a conforming foreign sender

// fenc writes AMF the way another implementation may: with references,
// dynamic members, externalizable objects and longer forms.
type fenc struct {
	s    *core.Sim
	b    []byte
	o0   []any // AMF0 reference table: expected values
	str  []string
	obj  []any // AMF3 object table: expected values
	kind []string
	tr   []ftrait
	// how often a form was used
	refs int
	big  bool
	hole int // counts down the values to the one that cannot be decoded
}

type ftrait struct {
	typ   string
	dyn   bool
	props []string
}

func (e *fenc) byte(b ...byte) { e.b = append(e.b, b...) }
func (e *fenc) u16(v int)      { e.b = binary.BigEndian.AppendUint16(e.b, uint16(v)) }
func (e *fenc) u32(v uint32)   { e.b = binary.BigEndian.AppendUint32(e.b, v) }
func (e *fenc) f64(v float64)  { e.b = binary.BigEndian.AppendUint64(e.b, math.Float64bits(v)) }
func (e *fenc) str16(v string) { e.u16(len(v)); e.b = append(e.b, v...) }
func (e *fenc) u29(v uint32) {
	switch {
	case v < 1<<7:
		e.byte(byte(v))
	case v < 1<<14:
		e.byte(byte(v>>7)|0x80, byte(v)&0x7f)
	case v < 1<<21:
		e.byte(byte(v>>14)|0x80, byte(v>>7)|0x80, byte(v)&0x7f)
	default:
		e.byte(byte(v>>22)|0x80, byte(v>>15)|0x80, byte(v>>8)|0x80, byte(v))
	}
}

// v0 writes one AMF0 value and returns what it means.
func (e *fenc) v0(depth int) any {
	s := e.s
	if e.inHole(false) {
		return nil
	}
	k := 10
	if depth > 0 {
		k = 16
		if !e.big && s.Chance(4) {
			return e.many0()
		}
	}
	switch s.Int(k) {
	case 0:
		e.byte(5)
		return nil
	case 1:
		e.byte([]byte{6, 13}[s.Int(2)])
		return nil
	case 2:
		f := genFloat(s)
		e.byte(0)
		e.f64(f)
		return f
	case 3:
		b := s.Int(2)
		if b == 1 && s.Chance(300) { // any other byte than zero means true
			b = 1 + s.Int(255)
			s.Probe("true-of-another-value")
		}
		e.byte(1, byte(b))
		return b != 0
	case 4:
		x := genStr(s, false)
		e.byte(2)
		e.str16(x)
		return x
	case 5:
		x := genLong(s)
		e.byte([]byte{12, 15}[s.Int(2)])
		e.u32(uint32(len(x)))
		e.b = append(e.b, x...)
		return x
	case 6:
		t := float64(s.U32())
		e.byte(11)
		e.f64(t)
		e.u16(s.Int(1 << 16))
		return t
	case 7, 8:
		if len(e.o0) == 0 {
			e.byte(5)
			return nil
		}
		i := s.Int(min(len(e.o0), 1<<16))
		if e.o0[i] == nil { // an array that is still being written
			e.byte(5)
			return nil
		}
		e.byte(7)
		e.u16(i)
		e.refs++
		s.Probe("amf0-reference")
		return e.o0[i]
	case 9:
		e.byte(17) // switch to AMF3
		s.Probe("amf3-inside-amf0")
		return e.v3(min(depth, 1))
	case 10, 11:
		e.byte(3)
		w := map[string]any{}
		e.o0 = append(e.o0, w)
		e.fields0(w, depth)
		return w
	case 12:
		e.byte(8)
		w := map[string]any{}
		e.o0 = append(e.o0, w)
		e.u32(uint32(s.Int(9))) // the count is only a hint
		e.fields0(w, depth)
		return w
	case 13:
		e.byte(16)
		t := typed{genStr(s, false), map[string]any{}}
		e.o0 = append(e.o0, t)
		e.str16(t.typ)
		e.fields0(t.obj, depth)
		return t
	}
	e.byte(10)
	n := s.Int(4)
	e.u32(uint32(n))
	i := len(e.o0)
	e.o0 = append(e.o0, nil)
	w := []any{}
	for ; n > 0; n-- {
		w = append(w, e.v0(depth-1))
	}
	e.o0[i] = w
	return w
}

// many0 fills the table of references.
func (e *fenc) many0() any {
	n := e.manyOf()
	again := 1 + e.s.Int(4)
	e.byte(10)
	e.u32(uint32(n + again))
	i := len(e.o0)
	e.o0 = append(e.o0, nil)
	w := []any{}
	for j := 0; j < n; j++ {
		x := map[string]any{"n": float64(j)}
		e.o0 = append(e.o0, x)
		e.byte(3)
		e.str16("n")
		e.byte(0)
		e.f64(float64(j))
		e.u16(0)
		e.byte(9)
		w = append(w, x)
	}
	for ; again > 0; again-- {
		j := min(i+1+max(e.s.Int(n), e.s.Int(n)), 65535)
		e.byte(7)
		e.u16(j)
		w = append(w, e.o0[j])
	}
	e.o0[i] = w
	return w
}

func (e *fenc) manyOf() int {
	e.big = true
	n := []int{66, 130, 300, 600, 1030, 2100}[e.s.Int(6)]
	if e.s.Chance(30) {
		n = 8200 // indexes of three bytes
		if e.s.Chance(150) {
			n = []int{16400, 33000, 65540}[e.s.Int(3)]
			e.s.Probe("references-beyond-15-bits")
			e.s.Extend(8)
		}
	}
	e.s.Probe("many-references")
	return n
}

// many3 fills one of the tables of references.
func (e *fenc) many3() any {
	s := e.s
	n := e.manyOf()
	kind := s.Int(4)
	again := 1 + s.Int(4)
	e.byte(9)
	e.u29(uint32(n+again)<<1 | 1)
	i := e.entry("pending", nil)
	s0, t0 := len(e.str), len(e.tr)
	e.u29(1)
	d := dense{[]any{}, map[string]any{}}
	for j := 0; j < n; j++ {
		var v any
		switch kind {
		case 0:
			e.byte(6)
			x := fmt.Sprint("string ", j)
			e.u29(uint32(len(x))<<1 | 1)
			e.b = append(e.b, x...)
			e.str = append(e.str, x)
			v = x
		case 1:
			e.byte(8, 1)
			e.f64(float64(j))
			t := time.Unix(0, int64(j)*1e6).UTC()
			e.entry("date", t)
			v = t
		case 2:
			e.byte(12, 5, byte(j), byte(j>>8))
			b := []byte{byte(j), byte(j >> 8)}
			e.entry("bytes", b)
			v = b
		case 3: // objects of as many classes
			x := map[string]any{fmt.Sprint("p", j): true}
			e.byte(10, 0x13, 1)
			p := fmt.Sprint("p", j)
			e.u29(uint32(len(p))<<1 | 1)
			e.b = append(e.b, p...)
			e.str = append(e.str, p)
			e.tr = append(e.tr, ftrait{props: []string{p}})
			e.entry("object", x)
			e.byte(3)
			v = x
		}
		d.list = append(d.list, v)
	}
	for ; again > 0; again-- {
		j := max(s.Int(n), s.Int(n))
		switch kind {
		case 0:
			e.byte(6)
			e.u29(uint32(s0+j) << 1)
			d.list = append(d.list, e.str[s0+j])
			continue
		case 3:
			if s.Chance(500) { // another object of that class
				e.byte(10)
				e.u29(uint32(t0+j)<<2 | 1)
				e.byte(2)
				x := map[string]any{fmt.Sprint("p", j): false}
				e.entry("object", x)
				d.list = append(d.list, x)
				continue
			}
		}
		e.byte([]byte{0, 8, 12, 10}[kind])
		e.u29(uint32(i+1+j) << 1)
		d.list = append(d.list, e.obj[i+1+j])
	}
	e.obj[i], e.kind[i] = d, "array"
	return d
}

func (e *fenc) fields0(w map[string]any, depth int) {
	for i, n := 0, e.s.Int(4); i < n; i++ {
		k := genKey(e.s, i)
		e.str16(k)
		w[k] = e.v0(depth - 1)
	}
	e.u16(0)
	e.byte(9)
}

// str3 writes an AMF3 string, by reference if one exists and the draw says so.
func (e *fenc) str3(v string) {
	if v == "" {
		e.u29(1)
		return
	}
	for i, x := range e.str {
		if x == v && e.s.Int(4) != 0 {
			e.u29(uint32(i) << 1)
			e.refs++
			e.s.Probe("amf3-string-reference")
			return
		}
	}
	e.u29(uint32(len(v))<<1 | 1)
	e.b = append(e.b, v...)
	e.str = append(e.str, v)
}

func (e *fenc) entry(kind string, v any) int {
	e.obj = append(e.obj, v)
	e.kind = append(e.kind, kind)
	return len(e.obj) - 1
}

// ref3 writes a reference to an earlier object of a kind, if there is one.
func (e *fenc) ref3(kind string, marker byte) (any, bool) {
	if e.s.Int(3) != 2 {
		return nil, false
	}
	var is []int
	for i, k := range e.kind {
		if k == kind {
			is = append(is, i)
		}
	}
	if len(is) == 0 {
		return nil, false
	}
	i := is[e.s.Int(len(is))]
	e.byte(marker)
	e.u29(uint32(i) << 1)
	e.refs++
	e.s.Probe("amf3-" + kind + "-reference")
	return e.obj[i], true
}

// badRef writes a reference to something that was never sent or is of another
// kind.
func (e *fenc) badRef(amf3 bool) {
	s := e.s
	if s.Chance(150) { // a kind that is reserved, or too new
		s.Probe("unknown-kind")
		if amf3 {
			e.byte([]byte{13, 14, 15, 16, 17, 18, 32, 255}[s.Int(8)], 3, 1, 1, 1, 1)
		} else {
			e.byte([]byte{4, 14, 18, 32, 255}[s.Int(5)])
		}
		return
	}
	s.Probe("bad-reference")
	if !amf3 && len(e.o0)+3 > 1<<16 { // there is no such reference
		e.byte(7, 0xff)
		return
	}
	if !amf3 {
		e.byte(7)
		e.u16(len(e.o0) + s.Int(3))
		return
	}
	beyond := uint32(len(e.obj) + s.Int(3))
	k := s.Int(6)
	switch k {
	case 0:
		e.byte(6)
		e.u29(uint32(len(e.str)+s.Int(3)) << 1)
		return
	case 1:
		e.byte(10)
		if s.Chance(500) {
			e.u29(uint32(len(e.tr)+s.Int(3))<<2 | 1)
		} else {
			e.u29(beyond << 1)
		}
		return
	}
	kind := []string{"date", "xml", "bytes", "array"}[k-2]
	var is []int
	for i, have := range e.kind {
		// an array collection stands for its array
		if have != kind && !(kind == "array" && (have == "object" || have == "pending")) {
			is = append(is, i)
		}
	}
	if len(is) > 0 && s.Chance(600) {
		beyond = uint32(is[s.Int(len(is))])
	}
	e.byte([]byte{8, []byte{7, 11}[s.Int(2)], 12, 9}[k-2])
	e.u29(beyond << 1)
}

// badInside writes containers around something that cannot be decoded. If they
// have no room for it, it follows them, and what they mean and where they end is returned.
func (e *fenc) badInside(amf3 bool) (v any, end int) {
	s := e.s
	if amf3 {
		e.hole = 1 + s.Int(4)
		switch s.Int(3) {
		case 0:
			v = e.array3(2)
		case 1:
			v = e.object3(2)
		case 2:
			v = e.message3(2)
		}
	} else {
		e.hole = 2 + s.Int(4)
		v = e.v0(2)
	}
	if e.hole > 0 {
		e.hole = 0
		end = len(e.b)
		e.badRef(amf3)
		return v, end
	}
	s.Probe("undecodable-inside")
	return nil, 0
}

// inHole writes what cannot be decoded when its turn has come.
func (e *fenc) inHole(amf3 bool) bool {
	if e.hole == 0 {
		return false
	}
	if e.hole--; e.hole > 0 {
		return false
	}
	e.badRef(amf3)
	return true
}

// v3 writes one AMF3 value and returns what it means.
func (e *fenc) v3(depth int) any {
	s := e.s
	if e.inHole(true) {
		return nil
	}
	k := 10
	if depth > 0 {
		k = 17
		if !e.big && s.Chance(4) {
			return e.many3()
		}
	}
	switch s.Int(k) {
	case 0:
		e.byte([]byte{0, 1}[s.Int(2)])
		return nil
	case 1:
		b := s.Int(2)
		e.byte(byte(2 + b))
		return b == 1
	case 2, 3:
		v := []int32{0, 1, -1, 127, 128, -128, 1<<14 - 1, 1 << 14, 1<<21 - 1, 1 << 21, 1<<28 - 1, -1 << 28, -5000}[s.Int(13)]
		if s.Chance(400) {
			v = int32(s.Int(1<<29)) - 1<<28
		}
		e.byte(4)
		e.u29(uint32(v) & 0x1fffffff)
		if v < 0 {
			s.Probe("amf3-negative-integer")
			return v
		}
		return uint32(v)
	case 4:
		f := genFloat(s)
		e.byte(5)
		e.f64(f)
		return f
	case 5:
		x := genLong(s)
		if len(e.str) > 0 && s.Chance(500) {
			x = e.str[s.Int(len(e.str))]
		}
		e.byte(6)
		e.str3(x)
		return x
	case 6:
		if v, ok := e.ref3("date", 8); ok {
			return v
		}
		sec := int64(s.Int(1<<31)) - 1<<30
		if s.Chance(60) {
			sec = -62135596800 + int64(s.U64()%315537897600)
			s.Probe("date-far-away")
		}
		ms := int64(0)
		if s.Chance(500) {
			ms = int64(s.Int(1000))
		}
		e.byte(8, 1)
		e.f64(float64(sec*1000 + ms))
		t := time.Unix(sec, ms*1e6).UTC()
		e.entry("date", t)
		return t
	case 7:
		m := []byte{7, 11}[s.Int(2)]
		if v, ok := e.ref3("xml", m); ok {
			return v
		}
		x := genLong(s)
		e.byte(m)
		e.u29(uint32(len(x))<<1 | 1)
		e.b = append(e.b, x...)
		e.entry("xml", x)
		return x
	case 8, 9:
		if v, ok := e.ref3("bytes", 12); ok {
			return v
		}
		b := s.Bytes(s.Int(30))
		if s.Int(4) == 3 {
			b = []byte(genLong(s))
		}
		e.byte(12)
		e.u29(uint32(len(b))<<1 | 1)
		e.b = append(e.b, b...)
		e.entry("bytes", b)
		return b
	case 10, 11:
		return e.array3(depth)
	case 12, 13, 14:
		if v, ok := e.ref3("object", 10); ok {
			return v
		}
		return e.object3(depth)
	case 15:
		// ArrayCollection: an externalizable object around an array; the
		// wrapper takes an entry of its own
		e.external("flex.messaging.io.ArrayCollection")
		i := e.entry("pending", nil)
		v := e.array3(depth)
		e.obj[i], e.kind[i] = v, "object"
		s.Probe("array-collection")
		return v
	}
	return e.message3(depth)
}

func (e *fenc) array3(depth int) any {
	if v, ok := e.ref3("array", 9); ok {
		return v
	}
	s := e.s
	e.byte(9)
	n := s.Int(4)
	e.u29(uint32(n)<<1 | 1)
	i := e.entry("pending", nil)
	d := dense{[]any{}, map[string]any{}}
	for j, m := 0, s.Int(3); j < m; j++ {
		k := genKey(s, j)
		e.str3(k)
		d.assoc[k] = e.v3(depth - 1)
		s.Probe("amf3-associative-array")
	}
	e.str3("")
	for ; n > 0; n-- {
		d.list = append(d.list, e.v3(depth-1))
	}
	e.obj[i], e.kind[i] = d, "array"
	return d
}

func (e *fenc) object3(depth int) any {
	s := e.s
	var t ftrait
	have := -1
	if len(e.tr) > 0 && s.Int(2) == 1 {
		have = s.Int(len(e.tr))
		t = e.tr[have]
		if strings.HasPrefix(t.typ, "\x00") {
			have = -1
		}
	}
	e.byte(10)
	if have >= 0 {
		e.u29(uint32(have)<<2 | 1)
		e.refs++
		s.Probe("amf3-trait-reference")
	} else {
		t = ftrait{typ: []string{"", "flex.T", "A"}[s.Int(3)], dyn: s.Chance(500)}
		for i, n := 0, s.Int(4); i < n; i++ {
			t.props = append(t.props, genKey(s, i))
		}
		f := uint32(3) | uint32(len(t.props))<<4
		if t.dyn {
			f |= 8
			s.Probe("amf3-dynamic")
		}
		e.u29(f)
		e.str3(t.typ)
		for _, p := range t.props {
			e.str3(p)
		}
		e.tr = append(e.tr, t)
	}
	w := map[string]any{}
	e.entry("object", w)
	for _, p := range t.props {
		w[p] = e.v3(depth - 1)
	}
	if t.dyn {
		for i, n := 0, s.Int(3); i < n; i++ {
			k := "dyn" + genKey(s, i)
			e.str3(k)
			w[k] = e.v3(depth - 1)
		}
		e.str3("")
	}
	return w
}

// external writes the head of an object of an externalizable class.
func (e *fenc) external(class string) {
	e.byte(10)
	for i, t := range e.tr {
		if t.typ == "\x00"+class && e.s.Int(2) == 1 {
			e.u29(uint32(i)<<2 | 1)
			e.refs++
			e.s.Probe("external-trait-reference")
			return
		}
	}
	e.u29(0x07)
	e.str3(class)
	e.tr = append(e.tr, ftrait{typ: "\x00" + class})
}

// message3 writes a small-message form of a Flex message, or an object of a
// class the receiver registered a handler for.
func (e *fenc) message3(depth int) any {
	s := e.s
	kind := s.Int(4)
	if kind == 3 {
		e.external("sim.One")
		i := e.entry("pending", nil)
		d := []any{e.v3(depth - 1)}
		e.obj[i], e.kind[i] = d, "object"
		return d
	}
	if kind == 2 {
		e.external("sim.Pair")
		i := e.entry("pending", nil)
		a := e.v3(depth - 1)
		b := e.v3(depth - 1)
		d := []any{a, b}
		e.obj[i], e.kind[i] = d, "object"
		s.Probe("registered-handler")
		return d
	}
	e.external([]string{"DSA", "DSK"}[kind])
	i := e.entry("pending", nil)
	w := map[string]any{}
	set := func(groups [][]string) {
		last := 0
		var fl []byte
		// bits the receiver has no name for carry values all the same
		for g, names := range groups {
			names = append([]string(nil), names...)
			for j := len(names); j < 7; j++ {
				names = append(names, fmt.Sprintf("extra_%d_%d", g, j))
			}
			groups[g] = names
			if s.Chance(700) {
				names = names[:min(len(names), 2)]
			}
			f := byte(0)
			for j := range names {
				if s.Chance(350) {
					f |= 1 << j
				}
			}
			fl = append(fl, f)
			if f != 0 {
				last = g
			}
		}
		fl = fl[:last+1]
		for g := range fl {
			b := fl[g]
			if g < len(fl)-1 {
				b |= 0x80
			}
			e.byte(b)
		}
		for g := range fl {
			for j, n := range groups[g] {
				if fl[g]&(1<<j) != 0 {
					w[n] = e.v3(depth - 1)
				}
			}
		}
	}
	set([][]string{{"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"}, {"clientIdBytes", "messageIdBytes"}})
	set([][]string{{"correlationId", "correlationIdBytes"}})
	if kind == 1 {
		set([][]string{{}})
	}
	e.obj[i], e.kind[i] = w, "object"
	s.Probe("flex-small-message")
	return w
}
