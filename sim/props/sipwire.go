package props

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"verifsim/core"
)

// A reader of written SIP messages that shares nothing with the library: what
// the library writes has to mean the same to everybody else.

// wireURI reads scheme:[user@]host[:port];parameters.
func wireURI(t string) (u sipURI, err error) {
	i := strings.IndexByte(t, ':')
	if i < 0 {
		return u, fmt.Errorf("no scheme in %q", t)
	}
	u.typ, t = t[:i], t[i+1:]
	if u.typ != "sip" && u.typ != "sips" && u.typ != "tel" {
		return u, fmt.Errorf("scheme %q", u.typ)
	}
	u.args = map[string]string{}
	if u.typ != "tel" {
		// the user part may contain what delimits elsewhere, but no @
		if i := strings.IndexByte(t, '@'); i >= 0 {
			if i == 0 || strings.ContainsAny(t[:i], " \t<>\"\r\n") {
				return u, fmt.Errorf("user part %q", t[:i])
			}
			u.user, t = t[:i], t[i+1:]
		}
	}
	if i := strings.IndexByte(t, ';'); i >= 0 {
		if err = wireArgs(t[i:], u.args); err != nil {
			return u, err
		}
		t = t[:i]
	}
	if strings.ContainsAny(t, " \t<>\"\r\n,@") {
		return u, fmt.Errorf("URI %q", t)
	}
	if u.typ == "tel" {
		if strings.Contains(t, ":") {
			return u, fmt.Errorf("telephone number %q", t)
		}
		u.user = t
		return u, nil
	}
	u.host, u.port, err = wireHost(t)
	return u, err
}

func wireHost(t string) (host, port string, err error) {
	host = t
	i := strings.IndexByte(t, ':')
	if strings.HasPrefix(t, "[") {
		k := strings.IndexByte(t, ']')
		if k < 0 {
			return "", "", fmt.Errorf("host %q", t)
		}
		if i = -1; k+1 < len(t) {
			i = k + 1
		}
	}
	if i >= 0 {
		host, port = t[:i], t[i+1:]
		if t[i] != ':' {
			return "", "", fmt.Errorf("host %q", t)
		}
		if _, err := strconv.ParseUint(port, 10, 16); err != nil {
			return "", "", fmt.Errorf("port %q", port)
		}
	}
	if host == "" || strings.ContainsAny(host, "@;<> \t") {
		return "", "", fmt.Errorf("host %q", t)
	}
	return host, port, nil
}

func wireArgs(t string, m map[string]string) error {
	for _, p := range strings.Split(t, ";")[1:] {
		k, v, _ := strings.Cut(p, "=")
		k, v = strings.Trim(k, " \t"), strings.Trim(v, " \t")
		if k == "" || strings.ContainsAny(k+v, " \t<>@,") {
			return fmt.Errorf("parameter %q", p)
		}
		if _, ok := m[k]; ok {
			return fmt.Errorf("parameter %q twice", k)
		}
		m[k] = v
	}
	return nil
}

// wireAddr reads a name-addr with parameters; all parameters are put together,
// because the library does not tell them apart.
func wireAddr(t string) (a sipAddr, err error) {
	rest := t
	if strings.HasPrefix(t, `"`) {
		i := 1
		for ; i < len(t) && t[i] != '"'; i++ {
			if t[i] == '\\' {
				i++
			}
			if i < len(t) {
				a.name += t[i : i+1]
			}
		}
		if i >= len(t) {
			return a, fmt.Errorf("display name without end in %q", t)
		}
		rest = t[i+1:]
	} else if i := strings.IndexByte(t, '<'); i > 0 {
		a.name = strings.Trim(t[:i], " \t")
		rest = t[i:]
		if strings.ContainsAny(a.name, "\"@:;,<>\\") {
			return a, fmt.Errorf("display name %q needs quotes", a.name)
		}
	}
	rest = strings.TrimLeft(rest, " \t")
	k := strings.IndexByte(rest, '>')
	if !strings.HasPrefix(rest, "<") || k < 0 {
		return a, fmt.Errorf("no address in brackets in %q", t)
	}
	if a.uri, err = wireURI(rest[1:k]); err != nil {
		return a, err
	}
	if rest = strings.TrimLeft(rest[k+1:], " \t"); rest != "" && rest[0] != ';' {
		return a, fmt.Errorf("%q behind the address", rest)
	}
	if rest == "" {
		return a, nil
	}
	return a, wireArgs(rest, a.uri.args)
}

func wireVia(t string) (v sipURI, err error) {
	if !strings.HasPrefix(t, "SIP/2.0/") {
		return v, fmt.Errorf("protocol in %q", t)
	}
	v.args = map[string]string{}
	t = t[8:]
	if i := strings.IndexByte(t, ';'); i >= 0 {
		if err = wireArgs(t[i:], v.args); err != nil {
			return v, err
		}
		t = t[:i]
	}
	w, h, ok := strings.Cut(t, " ")
	if !ok || w == "" {
		return v, fmt.Errorf("transport in %q", t)
	}
	v.typ = w
	v.host, v.port, err = wireHost(h)
	return v, err
}

func sameURI(a, b sipURI) bool {
	if a.typ != b.typ || a.user != b.user || a.host != b.host || a.port != b.port || len(a.args) != len(b.args) {
		return false
	}
	for k, v := range b.args {
		if w, ok := a.args[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// checkAddrText checks an address the library has written.
func checkAddrText(s *core.Sim, where, t string, a sipAddr) {
	g, err := wireAddr(t)
	if err != nil || g.name != a.name || !sameURI(g.uri, a.uri) {
		s.Fail("written-address", "%s: the address of name %q, URI %s:%s@%s:%s and %d parameters is written as %q (%v)", where, a.name, a.uri.typ, a.uri.user, a.uri.host, a.uri.port, len(a.uri.args), t, err)
	}
}

func checkViaText(s *core.Sim, where, t string, v sipURI) {
	g, err := wireVia(t)
	if err != nil || !sameURI(g, v) {
		s.Fail("written-via", "%s: the via of %s %s:%s with %d parameters is written as %q (%v)", where, v.typ, v.host, v.port, len(v.args), t, err)
	}
}

// checkWritten reads what the library has written for m; the body is checked
// where it arrives.
func checkWritten(s *core.Sim, where string, b []byte, m *sipMsg) {
	bad := func(f string, a ...any) { s.Fail("written-message", "%s: %s", where, fmt.Sprintf(f, a...)) }
	head := b
	if i := bytes.Index(b, []byte("\r\n\r\n")); i >= 0 {
		head = b[:i]
	}
	lines := strings.Split(strings.TrimSuffix(string(head), "\r\n"), "\r\n")
	first := strings.SplitN(lines[0], " ", 3)
	if len(first) != 3 {
		bad("start line %q", lines[0])
	}
	if m.resp {
		if first[0] != m.version || first[1] != strconv.Itoa(m.code) || first[2] != m.reason {
			bad("status line %q, want %s %d %s", lines[0], m.version, m.code, m.reason)
		}
	} else {
		u, err := wireURI(first[1])
		if err != nil || first[0] != m.method || first[2] != m.version || !sameURI(u, m.uri) {
			bad("request line %q (%v)", lines[0], err)
		}
	}
	got := map[string][]string{}
	for _, l := range lines[1:] {
		n, v, ok := strings.Cut(l, ":")
		if !ok || n == "" || strings.ContainsAny(n, " \t") {
			bad("header line %q", l)
		}
		n = strings.ToLower(n)
		for full, c := range sipCompact {
			if c == n {
				n = full
			}
		}
		got[n] = append(got[n], strings.Trim(v, " \t"))
	}
	if len(got) != len(m.names) {
		bad("%d header names, want %d", len(got), len(m.names))
	}
	for _, n := range m.names {
		if n == "content-length" {
			if len(got[n]) != 1 {
				bad("%d Content-Length lines", len(got[n]))
			}
			continue
		}
		if w := m.hdr[n]; len(w) != len(got[n]) {
			bad("header %s: %d values, want %d", n, len(got[n]), len(w))
		}
		for i, w := range m.hdr[n] {
			if got[n][i] != w {
				bad("header %s: value %d is %q, want %q", n, i, got[n][i], w)
			}
		}
	}
}
