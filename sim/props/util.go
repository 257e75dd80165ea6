package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verifsim/core"
)

// dense is what a decoded AMF3 array has to look like.
type dense struct {
	list  []any
	assoc map[string]any
}

// arrayParts reads a decoded AMF3 array, whose parts have no accessors, by the
// types of its fields.
func arrayParts(v any) (amf.Array, amf.Object, bool) {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Struct || rv.Type() != reflect.TypeOf(amf.EcmaArrayAMF3{}) {
		return nil, nil, false
	}
	p := reflect.New(rv.Type()).Elem()
	p.Set(rv)
	var l amf.Array
	var o amf.Object
	for i := 0; i < p.NumField(); i++ {
		f := reflect.NewAt(p.Field(i).Type(), p.Field(i).Addr().UnsafePointer()).Elem()
		switch x := f.Interface().(type) {
		case amf.Array:
			l = x
		case amf.Object:
			o = x
		}
	}
	return l, o, true
}

type pair struct{ a, b uintptr }

// differ tells where got is not what want describes, "" if nowhere.
func differ(got, want any) string { return differ1(got, want, map[pair]bool{}, "value") }

func differ1(got, want any, seen map[pair]bool, at string) string {
	switch w := want.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: got %s, want null", at, short(got))
		}
		return ""
	case float64:
		g, ok := got.(float64)
		if !ok || math.Float64bits(g) != math.Float64bits(w) && !(g != g && w != w) {
			return fmt.Sprintf("%s: got %s, want %v", at, short(got), w)
		}
		return ""
	case dense:
		l, o, ok := arrayParts(got)
		if !ok {
			return fmt.Sprintf("%s: got %s, want an array", at, short(got))
		}
		if d := differMap(o, w.assoc, seen, at); d != "" {
			return d
		}
		return differList(l, w.list, seen, at)
	case []any:
		g, ok := got.(amf.Array)
		if !ok {
			return fmt.Sprintf("%s: got %s, want an array", at, short(got))
		}
		return differList(g, w, seen, at)
	case map[string]any:
		g, ok := got.(amf.Object)
		if !ok {
			return fmt.Sprintf("%s: got %s, want an object", at, short(got))
		}
		k := pair{reflect.ValueOf(g).Pointer(), reflect.ValueOf(w).Pointer()}
		if seen[k] {
			return ""
		}
		seen[k] = true
		return differMap(g, w, seen, at)
	case typed:
		g, ok := got.(amf.TypedObject)
		if !ok || g.Type != w.typ {
			return fmt.Sprintf("%s: got %s, want an object of type %q", at, short(got), w.typ)
		}
		return differ1(g.Object, w.obj, seen, at)
	case []byte:
		g, ok := got.([]byte)
		if !ok || !bytes.Equal(g, w) {
			return fmt.Sprintf("%s: got %s, want bytes %s", at, short(got), core.Hex(w))
		}
		return ""
	case time.Time:
		g, ok := got.(time.Time)
		if !ok || !g.Equal(w) {
			return fmt.Sprintf("%s: got %s, want %v", at, short(got), w)
		}
		return ""
	case anyOf:
		return ""
	}
	if reflect.TypeOf(got) != reflect.TypeOf(want) || got != want {
		return fmt.Sprintf("%s: got %s, want %s", at, short(got), short(want))
	}
	return ""
}

// typed is an expected AMF0 typed object.
type typed struct {
	typ string
	obj map[string]any
}

// anyOf is an expected value whose content does not matter.
type anyOf struct{}

func differList(g amf.Array, w []any, seen map[pair]bool, at string) string {
	if len(g) != len(w) {
		return fmt.Sprintf("%s: got %d elements, want %d", at, len(g), len(w))
	}
	for i := range w {
		if d := differ1(g[i], w[i], seen, fmt.Sprintf("%s[%d]", at, i)); d != "" {
			return d
		}
	}
	return ""
}

func differMap(g amf.Object, w map[string]any, seen map[pair]bool, at string) string {
	for _, k := range sorted(w) {
		v, ok := g[k]
		if !ok {
			return fmt.Sprintf("%s: member %q is missing", at, short(k))
		}
		if d := differ1(v, w[k], seen, at+"."+short(k)); d != "" {
			return d
		}
	}
	if len(g) != len(w) {
		return fmt.Sprintf("%s: got %d members, want %d", at, len(g), len(w))
	}
	return ""
}

func sorted(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// short prints a value for a message, the same way every time.
func short(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		if len(x) > 40 {
			return fmt.Sprintf("%q..(%d)", x[:40], len(x))
		}
		return fmt.Sprintf("%q", x)
	case []byte:
		return "bytes " + core.Hex(x)
	case amf.Object:
		return fmt.Sprintf("an object of %d members", len(x))
	case amf.Array:
		return fmt.Sprintf("an array of %d elements", len(x))
	case amf.TypedObject:
		return fmt.Sprintf("an object of type %q with %d members", x.Type, len(x.Object))
	case amf.EcmaArrayAMF3:
		return "an amf3 array"
	case float64, float32, bool, int, int32, uint32, time.Time:
		return fmt.Sprintf("%T %v", x, x)
	}
	return fmt.Sprintf("a %T", v)
}

// stuck fails the run if tasks could not finish.
func stuck(s *core.Sim, names []string) {
	if len(names) > 0 {
		s.Fail("no-progress", "tasks can never go on: %v", names)
	}
}

// counter counts what passes to a writer.
type counter struct {
	w io.Writer
	n int
}

func (c *counter) Write(p []byte) (int, error) {
	n, err := c.w.Write(p)
	c.n += n
	return n, err
}

func isPrefix(a, b []byte) bool { return len(a) <= len(b) && bytes.Equal(a, b[:len(a)]) }

// firstDiff describes where two byte strings part.
func firstDiff(got, want []byte) string {
	n := min(len(got), len(want))
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %02x, want %02x (%d bytes, want %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	return fmt.Sprintf("%d bytes, want %d", len(got), len(want))
}

// sometimesPreempt interrupts the library between statements in some runs.
func sometimesPreempt(s *core.Sim) {
	switch s.Int(4) {
	case 1:
		s.Preempt(2000)
	case 2:
		s.Preempt(200)
	case 3:
		s.Preempt(40)
	}
}

// stretch makes a history of n steps a very long one in few runs, at most max steps.
func stretch(s *core.Sim, n, max int) int {
	if s.Int(1200) < 1199 {
		return n
	}
	s.Probe("long-history")
	s.Extend(32)
	return min(max, n*[]int{30, 100, 300, 1000}[s.Int(4)])
}
