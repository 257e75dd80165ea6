package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/sips"

	"verifsim/core"
)

var sipReal = []string{"sips (messages, headers, request URIs, addresses, CSeq, Via, authorization, request and response construction)", "bufio (standard library)"}

var sipMethods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO", "REFER", "MESSAGE", "UPDATE", "PING"}

var sipReasons = []struct {
	code int
	text string
}{
	{100, "Trying"}, {180, "Ringing"}, {181, "Call Is Being Forwarded"}, {182, "Queued"}, {183, "Session Progress"}, {200, "OK"}, {300, "Multiple Choices"}, {301, "Moved Permanently"},
	{302, "Moved Temporarily"}, {305, "Use Proxy"}, {380, "Alternative Service"}, {400, "Bad Request"}, {401, "Unauthorized"}, {402, "Payment Required"}, {403, "Forbidden"},
	{404, "Not Found"}, {405, "Method Not Allowed"}, {406, "Not Acceptable"}, {407, "Proxy Authentication Required"}, {408, "Request Timeout"}, {410, "Gone"}, {413, "Request Entity Too Large"},
	{414, "Request-URI Too Long"}, {415, "Unsupported Media Type"}, {416, "Unsupported URI Scheme"}, {420, "Bad Extension"}, {421, "Extension Required"}, {423, "Interval Too Brief"},
	{481, "Call/Transaction Does Not Exist"}, {482, "Loop Detected"}, {483, "Too Many Hops"}, {484, "Address Incomplete"}, {485, "Ambiguous"}, {486, "Busy Here"}, {487, "Request Terminated"},
	{488, "Not Acceptable Here"}, {491, "Request Pending"}, {493, "Undecipherable"}, {500, "Server Internal Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"},
	{504, "Server Timeout"}, {505, "Version Not Supported"}, {513, "Message Too Large"}, {600, "Busy Everywhere"}, {603, "Decline"}, {604, "Does Not Exist Anywhere"}, {606, "Not Acceptable"},
	{299, ""}, {199, ""}, {699, ""}, // codes without a text of their own
}

// compact forms of RFC 3261 and its extensions
var sipCompact = map[string]string{"accept-contact": "a", "allow-events": "u", "call-id": "i", "contact": "m", "content-encoding": "e", "content-length": "l", "content-type": "c",
	"event": "o", "from": "f", "identity": "y", "refer-to": "r", "referred-by": "b", "reject-contact": "j", "request-disposition": "d", "session-expires": "x", "subject": "s", "supported": "k", "to": "t", "via": "v"}

// sipURI is a sip, sips or tel URI and what it says.
type sipURI struct {
	typ, user, host, port string
	args                  map[string]string
}

func genToken(s *core.Sim, max int) string {
	const set = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'+%"
	n := 1 + s.Int(max)
	b := make([]byte, n)
	s.FillBytes(b)
	for i := range b {
		b[i] = set[int(b[i])%len(set)]
	}
	return string(b)
}

func genArgs(s *core.Sim, names ...string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		switch s.Int(3) {
		case 1:
			m[n] = genToken(s, 12)
		case 2:
			if s.Chance(300) {
				m[n] = ""
			}
		}
	}
	return m
}

// quotedArg may add a parameter whose value can only be written in quotes.
func quotedArg(s *core.Sim, m map[string]string, name string) {
	if s.Int(8) == 7 {
		m[name] = []string{"<urn:uuid:f81d4fae-7dec>", "a;b", "x, y", "a>b", `say "hi"`, `back\slash`, "k=v", "sip:u@h:5", "<", "two words", "张\u3000三", "a\tb", "\\t", `"a", b`, `\", b`}[s.Int(15)]
	}
}

// argText writes parameters; where white space is allowed, some have it.
func argText(s *core.Sim, m map[string]string, lws bool) string {
	sep := func(t string) string {
		if !lws || s.Int(6) < 5 {
			return t
		}
		s.Probe("spaced-parameter")
		return []string{" ", "", "\t", "  "}[s.Int(4)] + t + []string{" ", "", "\t"}[s.Int(3)]
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	// sorted, then turned by a drawn amount: the order must not matter
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	t := ""
	o := s.Int(len(ks) + 1)
	for i := range ks {
		k := ks[(i+o)%len(ks)]
		t += sep(";") + k
		if m[k] != "" {
			v := m[k]
			if q := strings.ReplaceAll(strings.ReplaceAll(v, `\`, `\\`), `"`, `\"`); strings.ContainsAny(v, "\"\\<>;,@:= \t张\u3000") || lws && s.Int(10) == 9 {
				v = `"` + q + `"`
				s.Probe("quoted-parameter")
			}
			t += sep("=") + v
		}
	}
	return t
}

func genHost(s *core.Sim) (string, string) {
	h := []string{"biloxi.com", "192.168.1.102", "pc33.atlanta.example.com", "a", "10.0.0.1", "[2001:db8::9:1]", "[::1]"}[s.Int(7)]
	if h[0] == '[' {
		s.Probe("ipv6-host")
	}
	if s.Chance(400) {
		return h, strconv.Itoa(1 + s.Int(65535))
	}
	return h, ""
}

// genUser draws a user part; only in brackets or a request line may it contain
// a comma, a question mark or a semicolon.
func genUser(s *core.Sim, free bool) string {
	u := genToken(s, 20)
	if s.Chance(150) {
		set := []string{"&", "=", "+", "$", "/", ":", ",", ";", "?", ";a=b"}
		if !free {
			set = set[:6]
		}
		for n := 1 + s.Int(3); n > 0; n-- {
			u += set[s.Int(len(set))] + genToken(s, 6)
		}
		s.Probe("delimiters-in-user")
	}
	return u
}

func genURI(s *core.Sim, free bool) sipURI {
	u := sipURI{typ: []string{"sip", "sip", "sips", "tel"}[s.Int(4)]}
	switch {
	case u.typ == "tel":
		u.user = "+" + strconv.Itoa(1000+s.Int(1e9))
		s.Probe("tel-uri")
	default:
		u.host, u.port = genHost(s)
		if s.Chance(800) {
			u.user = genUser(s, free)
		} else {
			s.Probe("uri-without-user")
		}
	}
	return u
}

func (u sipURI) text(s *core.Sim) string {
	t := u.typ + ":" + u.user
	if s.Chance(60) {
		t = randCase(s, u.typ) + ":" + u.user
	}
	if u.user != "" && u.host != "" {
		t += "@"
	}
	t += u.host
	if u.port != "" {
		t += ":" + u.port
	}
	return t + argText(s, u.args, false)
}

func sameArgs(a sips.Args, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		if w, ok := a[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// sipAddr is what a From, To or Contact header says.
type sipAddr struct {
	name string
	uri  sipURI
}

func genAddr(s *core.Sim, quoted bool) (sipAddr, string) {
	form := s.Int(5)
	a := sipAddr{uri: genURI(s, form < 4)}
	args := genArgs(s, "tag", "expires", "q")
	if quoted {
		quotedArg(s, args, "+sip.instance")
	}
	inner := map[string]string{}
	if form < 4 && s.Chance(150) { // parameters of the URI itself
		inner = genArgs(s, "transport", "user", "lr", "maddr")
		s.Probe("uri-parameters-in-brackets")
	}
	a.uri.args = inner
	t := a.uri.text(s)
	switch form {
	case 0:
		t = "<" + t + ">"
	case 1:
		a.name = []string{"Bob", "Mr. Watson", "Li Lei, office", "a: b", "Smith; Bob", `The "Boss"`, `back\slash`, "a <sip:x@y>", "sip:not@a.uri", "李雷", "<", "\"", "张\u3000三", "tab\there", "no\u00a0break", "zero\u200bwidth", "\\n", "\\\\"}[s.Int(18)]
		q := strings.ReplaceAll(strings.ReplaceAll(a.name, `\`, `\\`), `"`, `\"`)
		if q != a.name {
			s.Probe("escaped-name")
		}
		t = `"` + q + `"` + []string{" ", "", "\t", "  "}[s.Pick(6, 1, 1, 1)] + "<" + t + ">"
	case 2:
		a.name = []string{"Anonymous", "Alice", "Alice Smith", "anonymous", "ANONYMOUS", "Anonymous Caller", "alice"}[s.Pick(6, 6, 6, 1, 1, 1, 1)]
		t = a.name + []string{" ", "", "  ", "\t"}[s.Pick(6, 1, 1, 1)] + "<" + t + ">"
	case 3:
		t = "<" + t + "> "
	}
	all := map[string]string{}
	for k, v := range inner {
		all[k] = v
	}
	for k, v := range args {
		all[k] = v
	}
	a.uri.args = all
	return a, t + argText(s, args, true)
}

func (a sipAddr) diff(g *sips.SIPUser) string {
	switch {
	case g == nil:
		return "missing"
	case g.URIType != a.uri.typ:
		return fmt.Sprintf("URI type %q, want %q", g.URIType, a.uri.typ)
	case g.Name != a.name:
		return fmt.Sprintf("display name %q, want %q", g.Name, a.name)
	case g.User != a.uri.user:
		return fmt.Sprintf("user %q, want %q", g.User, a.uri.user)
	case g.Host != a.uri.host || g.Port != a.uri.port:
		return fmt.Sprintf("host %q port %q, want %q %q", g.Host, g.Port, a.uri.host, a.uri.port)
	case !sameArgs(g.Args, a.uri.args):
		return fmt.Sprintf("parameters %d, want %d or other values", len(g.Args), len(a.uri.args))
	}
	return ""
}

// sipMsg is a message on the wire and what it says.
type sipMsg struct {
	resp     bool
	method   string
	version  string
	code     int
	reason   string
	uri      sipURI
	hdr      map[string][]string // by canonical name
	names    []string
	from, to sipAddr
	contact  *sipAddr
	cseq     [2]string
	vias     map[string]sipURI // by field value; typ holds the transport
	via      sipURI
	auth     map[string]string
	body     []byte
	sep      string
	wire     []byte
	start    int // where the start line begins, after ignored empty lines
	ctlen    int // where the value of Content-Length begins
	head     int // where the separator line begins
}

func randCase(s *core.Sim, n string) string {
	switch s.Int(4) {
	case 1:
		return strings.ToUpper(n)
	case 2:
		b := []byte(n)
		for i := range b {
			if i == 0 || b[i-1] == '-' {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	case 3:
		b := []byte(n)
		for i := range b {
			if i%2 == 1 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return n
}

type sipOpts struct {
	folds   bool
	compact bool
	maxBody int
	multi   bool
	quoted  bool // parameter values that need quotes
}

// wireVersion writes a version, whose case does not matter.
func wireVersion(s *core.Sim, v string) string {
	if s.Chance(40) {
		s.Probe("odd-case-version")
		return randCase(s, "sip") + v[3:]
	}
	return v
}

// genSIP draws a conforming message.
func genSIP(s *core.Sim, o sipOpts, eol string) *sipMsg {
	m := &sipMsg{hdr: map[string][]string{}, version: "SIP/2.0"}
	if s.Int(12) == 11 {
		m.version = "SIP/1.0"
	}
	var b []byte
	ws := func() string { return []string{" ", "", "  ", "\t", " \t "}[s.Pick(6, 1, 1, 1, 1)] }
	nl := func() string {
		return eol
	}
	if m.resp = s.Chance(400); m.resp {
		r := sipReasons[s.Int(len(sipReasons))]
		m.code, m.reason = r.code, r.text
		if s.Chance(150) {
			m.code = 100 + s.Int(600)
			m.reason = []string{"", "Ça va", "Something Else Entirely", "No: really"}[s.Int(4)]
		}
		b = append(b, wireVersion(s, m.version)+" "+strconv.Itoa(m.code)+" "+m.reason+nl()...)
	} else {
		m.method = sipMethods[s.Int(len(sipMethods))]
		m.uri = genURI(s, true)
		m.uri.args = genArgs(s, "transport", "user", "lr")
		b = append(b, m.method+" "+m.uri.text(s)+" "+wireVersion(s, m.version)+nl()...)
	}
	type field struct{ name, val string }
	var fs []field
	add := func(name, val string) {
		fs = append(fs, field{name, val})
	}
	var t string
	m.from, t = genAddr(s, o.quoted)
	add("from", t)
	m.to, t = genAddr(s, o.quoted)
	add("to", t)
	nvia := 1
	if o.multi {
		nvia += s.Int(3)
	}
	oneVia := func() (sipURI, string) {
		v := sipURI{typ: []string{"UDP", "TCP", "TLS", "SCTP", "TLS-SCTP", "WS", "WSS"}[s.Pick(3, 3, 2, 1, 1, 1, 1)]}
		v.host, v.port = genHost(s)
		v.args = genArgs(s, "branch", "rport", "received")
		if o.quoted {
			quotedArg(s, v.args, "x-note")
		}
		slash := []string{"/", " /", "/ ", " / ", "  /\t"}
		t := "SIP/2.0/"
		if s.Chance(60) {
			t = randCase(s, "sip") + slash[s.Int(5)] + "2.0" + slash[s.Int(5)]
			s.Probe("spaced-via")
		}
		t += v.typ + []string{" ", "  ", "\t"}[s.Pick(8, 1, 1)] + v.host
		if v.port != "" {
			t += ":" + v.port
		}
		return v, strings.TrimSpace(t + argText(s, v.args, true))
	}
	m.vias = map[string]sipURI{}
	for i := 0; i < nvia; i++ {
		v, t := oneVia()
		if o.multi && s.Chance(100) {
			_, u := oneVia()
			t += []string{", ", ",", " ,"}[s.Int(3)] + u
			s.Probe("listed-vias")
		}
		add("via", t)
		m.vias[t] = v
		if i == 0 {
			m.via = v
		}
	}
	m.cseq = [2]string{strconv.Itoa(s.Int(1 << 31)), sipMethods[s.Int(len(sipMethods))]}
	add("cseq", m.cseq[0]+[]string{" ", "  ", "\t", " \t "}[s.Pick(8, 1, 1, 1)]+m.cseq[1])
	add("call-id", genToken(s, 30)+"@"+genToken(s, 8))
	if s.Chance(500) {
		a, t := genAddr(s, o.quoted)
		m.contact = &a
		add("contact", t)
	}
	if s.Chance(200) {
		m.auth = map[string]string{"username": genToken(s, 8), "realm": []string{"atlanta.com", "a, b;c", "", `the "realm", here`, `DOM\bob`, `\`}[s.Int(6)], "nonce": genToken(s, 32), "uri": "sip:ss2.wcom.com"}
		sep := []string{", ", ",", ",  "}[s.Int(3)]
		t := "Digest "
		for i, k := range []string{"username", "realm", "nonce", "uri"} {
			if i > 0 {
				t += sep
			}
			t += k + `="` + strings.ReplaceAll(strings.ReplaceAll(m.auth[k], `\`, `\\`), `"`, `\"`) + `"`
		}
		add("authorization", t)
	}
	extra := []string{"subject", "supported", "content-type", "max-forwards", "user-agent", "expires", "x-vendor", "event", "allow-events", "content-encoding", "refer-to", "session-expires", "referred-by", "identity", "accept-contact", "reject-contact", "request-disposition"}
	used := map[string]bool{}
	for i, n := 0, s.Int(5); i < n; i++ {
		name := extra[s.Int(len(extra))]
		if used[name] {
			continue
		}
		used[name] = true
		k := 1
		if o.multi && s.Chance(300) {
			k = 2 + s.Int(2)
			s.Probe("several-values")
		}
		for ; k > 0; k-- {
			v := ""
			for j, w := 0, s.Int(6); j < w; j++ {
				if v != "" {
					v += []string{" ", ", ", ":", "; ", "=", "  "}[s.Int(6)]
				}
				v += genToken(s, []int{8, 8, 60}[s.Int(3)])
			}
			if s.Chance(8) {
				v += strings.Repeat(genToken(s, 60)+";", 30+s.Int(150)) + "e"
				s.Probe("long-line")
			}
			add(name, v)
		}
	}
	switch s.Int(4) {
	case 1:
		m.body = s.Bytes(s.Size(o.maxBody))
		if s.Chance(80) { // around what is read at a time
			m.body = s.Bytes([]int{1, 511, 512, 4094, 4095, 4096, 4097, 8191, 8192, 8193}[s.Int(10)])
			s.Probe("body-of-whole-blocks")
		}
	case 2:
		m.body = []byte("v=0\r\no=alice 53655765 2353687637 IN IP4 pc33\r\n\r\ns=-\r\n")[:s.Int(53)]
	case 3: // a body that looks like messages
		m.body = []byte("\r\n\r\nBYE sip:x@y SIP/2.0\r\nContent-Length: 3\r\n\r\nabc\r\n")[:s.Int(51)]
	}
	add("content-length", []string{"", "0", "000"}[s.Pick(18, 1, 1)]+strconv.Itoa(len(m.body)))
	// the fields come in any order; what one name has is the order on the wire
	switch s.Int(3) {
	case 0:
		o1 := s.Int(len(fs))
		fs = append(append([]field(nil), fs[o1:]...), fs[:o1]...)
	default:
		for i := len(fs) - 1; i > 0; i-- {
			j := s.Int(i + 1)
			fs[i], fs[j] = fs[j], fs[i]
		}
	}
	if s.Chance(200) { // Content-Length first, as some devices do
		i := 0
		for fs[i].name != "content-length" {
			i++
		}
		f := fs[i]
		copy(fs[1:i+1], fs[:i])
		fs[0] = f
	}
	form := map[string]string{}
	for _, f := range fs {
		n := f.name
		if _, ok := form[n]; !ok {
			m.names = append(m.names, n)
		}
		if w, ok := form[n]; ok && !s.Chance(200) {
			n = w
		} else if c := sipCompact[n]; c != "" && o.compact && s.Chance(250) {
			n = c
			s.Probe("compact-name")
		}
		if w, ok := form[f.name]; ok && w != n {
			s.Probe("both-names-of-a-header")
		}
		form[f.name] = n
		b = append(b, randCase(s, n)...)
		b = append(b, []string{"", " ", "\t", "  "}[s.Pick(8, 1, 1, 1)]...)
		b = append(b, ':')
		if len(f.val) > 0 {
			b = append(b, ws()...)
		} else {
			b = append(b, []string{"", " ", "  "}[s.Int(3)]...)
		}
		f.val = strings.TrimSpace(f.val)
		val, text := f.val, f.val
		if o.folds && f.val != "" && s.Chance(200) {
			s.Probe("folded-header")
			if s.Chance(300) { // right after the name
				text = nl() + []string{" ", "\t", "   "}[s.Int(3)] + text
			} else if i := strings.Index(text, " "); i > 0 && text[i+1:] != "" && !strings.ContainsAny(text[i-1:i]+text[i+1:i+2], " \t") {
				text = text[:i] + []string{"", " ", "\t"}[s.Int(3)] + nl() + []string{" ", "\t", "     "}[s.Int(3)] + text[i+1:]
			}
		}
		if f.name == "content-length" {
			m.ctlen = len(b) + len(text) - len(val)
		}
		b = append(b, text...)
		b = append(b, []string{"", " ", "\t"}[s.Pick(8, 1, 1)]...)
		b = append(b, nl()...)
		m.hdr[f.name] = append(m.hdr[f.name], val)
	}
	m.head = len(b)
	m.sep = nl()
	b = append(b, m.sep...)
	m.wire = append(b, m.body...)
	return m
}

// checkSIP compares a parsed message with what it has to say.
func checkSIP(s *core.Sim, where string, g *sips.SIP, m *sipMsg) {
	bad := func(f string, a ...any) {
		s.Fail("wrong-message", "%s: %s", where, fmt.Sprintf(f, a...))
	}
	if g.IsResponse != m.resp {
		bad("response is %v, want %v", g.IsResponse, m.resp)
	}
	if g.Version.String() != m.version {
		bad("version %s, want %s", g.Version, m.version)
	}
	if m.resp {
		if g.ResponseCode.Int() != m.code || g.ResponseStatus != m.reason {
			bad("status %d %q, want %d %q", g.ResponseCode, g.ResponseStatus, m.code, m.reason)
		}
	} else {
		if g.Method.String() != m.method {
			bad("method %s, want %s", g.Method, m.method)
		}
		if d := diffURI(g.Request, m.uri); d != "" {
			bad("request URI: %s", d)
		}
	}
	for _, n := range m.names {
		w := m.hdr[n]
		h := g.Headers.GetHeader(n)
		if len(h) != len(w) {
			bad("header %s: %d values, want %d", n, len(h), len(w))
		}
		for i := range w {
			if h[i] != w[i] {
				bad("header %s: value %d is %q, want %q", n, i, h[i], w[i])
			}
		}
		if f := g.Headers.GetFirstHeader(strings.ToUpper(n)); f != w[0] {
			bad("header %s: first value is %q, want %q", n, f, w[0])
		}
	}
	if n := len(g.Headers.GetAllHeaders()); n != len(m.names) {
		bad("%d header names, want %d", n, len(m.names))
	}
	if d := m.from.diff(g.From); d != "" {
		bad("From %q: %s", m.hdr["from"][0], d)
	}
	if d := m.to.diff(g.To); d != "" {
		bad("To %q: %s", m.hdr["to"][0], d)
	}
	if m.contact != nil {
		if d := m.contact.diff(g.Contact); d != "" {
			bad("Contact %q: %s", m.hdr["contact"][0], d)
		}
	}
	if g.Cseq == nil || g.Cseq.ID != m.cseq[0] || g.Cseq.Method != m.cseq[1] {
		bad("CSeq is wrong, want %v", m.cseq)
	}
	// the first Via on the wire is the one that counts
	if v, ok := m.vias[m.hdr["via"][0]]; !ok || g.Via == nil || g.Via.Trans != v.typ || g.Via.Host != v.host || g.Via.Port != v.port || !sameArgs(g.Via.Args, v.args) {
		bad("the first Via, %q, is read as %q %q %q with %d parameters", m.hdr["via"][0], g.Via.Trans, g.Via.Host, g.Via.Port, len(g.Via.Args))
	}
	if m.auth != nil && !sameArgs(g.Headers.GetAuthorization().Args, m.auth) {
		bad("Authorization %q is wrong", m.hdr["authorization"][0])
	}
	if w := append(m.hdr["expires"], ""); g.Headers.GetExpires() != w[0] {
		bad("Expires %q, want %q", g.Headers.GetExpires(), w[0])
	}
	if d := m.from.diff(g.Headers.GetSIPFrom()); d != "" {
		bad("From %q: %s", m.hdr["from"][0], d)
	}
	if d := m.to.diff(g.Headers.GetSIPTo()); d != "" {
		bad("To %q: %s", m.hdr["to"][0], d)
	}
	if g.Headers.GetCallID() != m.hdr["call-id"][0] {
		bad("Call-ID %q", g.Headers.GetCallID())
	}
}

func diffURI(g *sips.SIPRequest, u sipURI) string {
	switch {
	case g == nil:
		return "missing"
	case g.URIType != u.typ || g.User != u.user || g.Host != u.host || g.Port != u.port:
		return fmt.Sprintf("type %q user %q host %q port %q, want %q %q %q %q", g.URIType, g.User, g.Host, g.Port, u.typ, u.user, u.host, u.port)
	case !sameArgs(g.Args, u.args):
		return fmt.Sprintf("%d parameters, want %d or other values", len(g.Args), len(u.args))
	}
	return ""
}

// checkPayload accepts the body, or the finding on file: the separating line
// and the body.
func checkPayload(s *core.Sim, where string, g *sips.SIP, m *sipMsg) {
	p := g.Payload()
	if bytes.Equal(p, m.body) {
		return
	}
	if string(p) == m.sep+string(m.body) {
		s.Finding("payload-includes-separator", "%s: the payload begins with the empty line that ends the header", where)
		return
	}
	s.Fail("wrong-body", "%s: payload: %s", where, firstDiff(p, m.body))
}

// readerSize draws the buffer of a connection's reader; bodies are read past
// the smaller ones.
func readerSize(s *core.Sim) int {
	return []int{4096, 8192, 65536, 2048, 16, 200}[s.Int(6)]
}

func genEOL(s *core.Sim) string {
	if s.Int(4) == 3 {
		return "\n"
	}
	return "\r\n"
}

// ---- S01: framing and meaning of messages on streams and in datagrams

func runS01(s *core.Sim) {
	sometimesPreempt(s)
	for i, n := 0, 1+s.Int(3); i < n; i++ {
		s01Session(s, i, true)
	}
	stuck(s, s.Run())
}

func s01Session(s *core.Sim, id int, payloads bool) {
	eol := genEOL(s)
	o := sipOpts{folds: true, compact: true, multi: true, quoted: true, maxBody: 3000}
	if s.Int(8) == 7 {
		o.maxBody = 40000
	}
	var ms []*sipMsg
	for j, k := 0, stretch(s, 1+s.Int(5), 500); j < k; j++ {
		ms = append(ms, genSIP(s, o, eol))
	}
	if s.Int(4) == 3 {
		s01Datagrams(s, id, ms, payloads)
		return
	}
	l := s.Link(fmt.Sprint("tcp", id))
	var wire []byte
	for _, m := range ms {
		if s.Chance(250) {
			for k := 1 + s.Int(3); k > 0; k-- {
				wire = append(wire, eol...)
			}
			s.Probe("keep-alive-lines")
		}
		wire = append(wire, m.wire...)
	}
	if s.Chance(100) {
		wire = append(wire, eol...)
	}
	s.Go(fmt.Sprint("sender", id), func() {
		for p := 0; p < len(wire); {
			k := min(len(wire)-p, 1+s.Size(6000))
			l.Write(wire[p : p+k])
			p += k
		}
		l.Close()
	})
	size := readerSize(s)
	s.Go(fmt.Sprint("receiver", id), func() {
		r := bufio.NewReaderSize(l, size)
		var got []*sips.SIP
		for j := range ms {
			g := sips.NewSIP()
			if err := g.Parse(r); err != nil {
				s.Fail("parse-error", "connection %d message %d of %d: %v", id, j, len(ms), err)
			}
			s.Ev("message", uint64(len(g.Payload())))
			got = append(got, g)
		}
		if err := sips.NewSIP().Parse(r); err == nil {
			s.Fail("message-from-nothing", "connection %d: a message after the last one", id)
		}
		// compared at the end: later messages must not disturb earlier ones
		for j, m := range ms {
			where := fmt.Sprintf("connection %d message %d", id, j)
			checkSIP(s, where, got[j], m)
			if !bytes.Equal(got[j].LayerContents(), m.wire[:m.head]) {
				s.Fail("wrong-contents", "%s: the header as received: %s", where, firstDiff(got[j].LayerContents(), m.wire[:m.head]))
			}
			if payloads {
				checkPayload(s, where, got[j], m)
			}
			if s.Chance(60) {
				s01Lines(s, where, m)
			}
		}
	})
}

// s01Lines hands over the header line by line, as a caller with framing of its
// own does.
func s01Lines(s *core.Sim, where string, m *sipMsg) {
	g := sips.NewSIP()
	for i, l := range bytes.Split(m.wire[:m.head], []byte("\n")) {
		l = bytes.Trim(append([]byte(nil), l...), "\r\n")
		if len(l) == 0 {
			continue
		}
		if i == 0 {
			if err := g.ParseFirstLine(l); err != nil {
				s.Fail("parse-error", "%s, first line: %v", where, err)
			}
		} else {
			g.ParseHeader(l)
		}
		for i := range l { // the caller's line is used again
			l[i] = 0xee
		}
	}
	if g.IsResponse != m.resp || g.Version.String() != m.version {
		s.Fail("wrong-message", "%s, line by line: response %v, version %s", where, g.IsResponse, g.Version)
	}
	if m.resp && (g.ResponseCode.Int() != m.code || g.ResponseStatus != m.reason) {
		s.Fail("wrong-message", "%s, line by line: status %d %q, want %d %q", where, g.ResponseCode, g.ResponseStatus, m.code, m.reason)
	}
	if !m.resp && g.Method.String() != m.method {
		s.Fail("wrong-message", "%s, line by line: method %s, want %s", where, g.Method, m.method)
	}
	for _, n := range m.names {
		if w, h := m.hdr[n], g.Headers.GetHeader(n); strings.Join(h, "\n") != strings.Join(w, "\n") {
			s.Fail("wrong-message", "%s, line by line: header %s is %q, want %q", where, n, h, w)
		}
	}
	s.Probe("line-by-line")
}

// s01Datagrams delivers every message as one datagram: lost, repeated, late.
func s01Datagrams(s *core.Sim, id int, ms []*sipMsg, payloads bool) {
	s.Probe("datagrams")
	for j, m := range ms {
		if s.FaultChance(150) {
			s.Fault("datagram-lost")
			continue
		}
		n := 1
		if s.FaultChance(200) {
			s.Fault("datagram-repeated")
			n = 2
		}
		if s.FaultChance(300) {
			s.Fault("datagram-reordered")
		}
		for ; n > 0; n-- {
			where := fmt.Sprintf("socket %d message %d", id, j)
			d := int64(s.Int(50)) * 1e6
			s.Go(fmt.Sprintf("udp%d-%d", id, j), func() {
				s.Sleep(d)
				b := append([]byte(nil), m.wire...)
				g := sips.NewSIP()
				if err := g.ParseBytes(b); err != nil {
					s.Fail("parse-error", "%s: %v", where, err)
				}
				s.Ev("datagram", uint64(len(b)))
				for i := range b { // the receive buffer is used again
					b[i] = 0xee
				}
				checkSIP(s, where, g, m)
				if payloads {
					checkPayload(s, where, g, m)
				}
			})
		}
	}
}

// ---- S02: relaying and answering

type sipHop struct {
	extra string // what earlier hops left in front of the body (finding on file)
	trim  bool
}

func runS02(s *core.Sim) {
	sometimesPreempt(s)
	for i, n := 0, 1+s.Int(2); i < n; i++ {
		s02Chain(s, i)
		if s.Chance(150) {
			s.Go(fmt.Sprint("small", i), func() { s02Small(s, fmt.Sprint("session ", i)) })
		}
	}
	stuck(s, s.Run())
}

// built is a message made with the library's constructors and its meaning.
func s02Built(s *core.Sim) (g *sips.SIP, m *sipMsg) {
	m = genSIP(s, sipOpts{maxBody: 2000, multi: true}, "\r\n")
	m.version = "SIP/2.0"
	h := sips.NewSIPHeader()
	for _, n := range m.names {
		v := m.hdr[n]
		if n == "content-length" {
			continue
		}
		if len(v) == 1 {
			h.SetFirstHeader(randCase(s, n), v[0])
		} else {
			h[n] = append([]string(nil), v...)
		}
	}
	structured := s.Chance(700)
	if structured {
		h.SetSIPFrom(newUser(m.from))
		h.SetSIPTo(newUser(m.to))
		if m.contact != nil {
			h.SetSIPContact(newUser(*m.contact))
		}
		h.SetSIPCseq(&sips.SIPCseq{ID: m.cseq[0], Method: m.cseq[1]})
		if len(m.hdr["via"]) == 1 {
			v := sips.NewSIPVia("")
			v.Trans, v.Host, v.Port = m.via.typ, m.via.host, m.via.port
			for k, w := range m.via.args {
				v.Args.Set(k, w)
			}
			h.SetSIPVia(v)
		}
		m.hdr["call-id"] = []string{genToken(s, 30) + "@relay"}
		h.SetCallID(m.hdr["call-id"][0])
		for _, n := range []string{"from", "to", "contact", "cseq", "via"} {
			if len(m.hdr[n]) == 1 {
				m.hdr[n] = []string{h.GetFirstHeader(n)}
			}
		}
		checkAddrText(s, "From", m.hdr["from"][0], m.from)
		checkAddrText(s, "To", m.hdr["to"][0], m.to)
		if m.contact != nil {
			checkAddrText(s, "Contact", m.hdr["contact"][0], *m.contact)
		}
		if t := m.hdr["cseq"][0]; t != m.cseq[0]+" "+m.cseq[1] {
			s.Fail("written-cseq", "the CSeq %v is written as %q", m.cseq, t)
		}
		if len(m.hdr["via"]) == 1 {
			m.vias[m.hdr["via"][0]] = m.via
			checkViaText(s, "Via", m.hdr["via"][0], m.via)
		}
	}
	if s.Chance(300) {
		n := s.Int(300)
		h.SetMaxForwards(n)
		m.set("max-forwards", strconv.Itoa(n))
		h.SetSubject("a b")
		m.set("subject", "a b")
		h.SetContentType("Application/MANSCDP+xml")
		m.set("content-type", "Application/MANSCDP+xml")
		h.SetSupported("100rel")
		m.set("supported", "100rel")
		h.SetAllow("INVITE, ACK")
		m.set("allow", "INVITE, ACK")
		h.SetReasonPhrase("x")
		m.set("reason-phrase", "x")
	}
	if s.Chance(200) {
		a := sips.NewArgs()
		m.auth = map[string]string{}
		for _, k := range []string{"username", "realm", "nonce", "uri", "opaque"} {
			if s.Chance(600) {
				m.auth[k] = []string{"", "bob", "a, b", `DOM\bob`, `the "realm"`, "x=y;z", "张\u3000三", "no\u00a0break", "a\tb", "sip:h", `\`, `"`, `\n`}[s.Int(13)]
				a.Set(k, m.auth[k])
			}
		}
		if len(a) == 0 {
			m.auth["realm"] = "r"
			a.Set("realm", "r")
		}
		v := "Digest " + a.CommaString()
		h.SetFirstHeader("Authorization", v)
		m.set("authorization", v)
		s.Probe("built-authorization")
	}
	if s.Chance(300) { // a wrong length of the caller's is corrected
		h.SetContentLength(s.Int(100))
	}
	if s.Chance(100) { // the headers come later, and replace the first ones
		defer func() {
			full := h
			g.Headers = nil
			if s.Chance(500) {
				g.SetHeader(sips.SIPHeader{"x-first": {"gone"}, "via": {"SIP/2.0/UDP gone"}})
			}
			g.SetHeader(full)
			g.SetBody([]byte("gone"))
			g.SetBody(m.body)
			s.Probe("headers-replaced")
		}()
	}
	if m.resp {
		r := sipReasons[s.Int(len(sipReasons))]
		m.code, m.reason = r.code, r.text
		return sips.MakeResponse(sips.SIPStatus(m.code), h, m.body), m
	}
	u := newRequest(m.uri)
	if s.Chance(300) {
		u = u.ToUser().ToRequest()
	}
	mt, err := sips.GetSIPMethod(m.method)
	if err != nil {
		s.Fail("unknown-method", "%s: %v", m.method, err)
	}
	return sips.MakeRequest(mt, u, h, m.body), m
}

// s02Small makes messages of few headers, or none, and keeps what they gave away.
func s02Small(s *core.Sim, where string) {
	h := sips.NewSIPHeader()
	names := []string{"call-id", "via", "subject", "x-one", "user-agent"}
	for n := s.Int(3); n > 0; n-- {
		h.SetFirstHeader(randCase(s, names[s.Int(len(names))]), genToken(s, 20))
	}
	want := map[string]string{}
	for _, n := range names {
		if v := h.GetFirstHeader(n); v != "" {
			want[n] = v
		}
	}
	body := append([]byte{'b'}, s.Bytes(s.Size(300))...)
	held := append([]byte(nil), body...)
	var g *sips.SIP
	if s.Chance(500) {
		mt, err := sips.GetSIPMethod(sipMethods[s.Int(len(sipMethods))])
		if err != nil {
			s.Fail("unknown-method", "%s: %v", where, err)
		}
		g = sips.MakeRequest(mt, sips.NewSIPRequest("sip:a@b"), h, body)
	} else {
		g = sips.MakeResponse(200, h, body)
	}
	for i := 0; i < 2; i++ {
		b := g.Bytes()
		f := sips.NewSIP()
		if err := f.Parse(bufio.NewReader(bytes.NewReader(b))); err != nil {
			s.Fail("parse-error", "%s, a message of %d headers: %v; %q", where, len(want), err, b)
		}
		for n, v := range want {
			if x := f.Headers.GetFirstHeader(n); x != v {
				s.Fail("header-value", "%s, a message of %d headers: %s is %q, want %q", where, len(want), n, x, v)
			}
		}
		old := f.Payload()
		if !bytes.Equal(old, body) && !bytes.Equal(old, append([]byte("\r\n"), body...)) {
			s.Fail("body", "%s, a message of %d headers: %s", where, len(want), firstDiff(old, body))
		}
		was := append([]byte(nil), old...)
		// what one message gave away is not written over when it gets another body
		f.SetBody(s.Bytes(1 + s.Int(400)))
		if !bytes.Equal(old, was) || !bytes.Equal(g.Payload(), held) {
			s.Fail("body", "%s: a new body is written over the one that another holds", where)
		}
		f.SetBody(body)
		g = f
	}
	s.Probe("few-headers")
}

// written writes a message out in one of the two ways there are.
func written(s *core.Sim, g *sips.SIP) []byte {
	if s.Chance(150) {
		return []byte(g.String())
	}
	return g.Bytes()
}

// s02Writer sends messages made with the constructors to one receiver.
func s02Writer(s *core.Sim, id int) {
	l := s.Link(fmt.Sprint("sip-out", id))
	var ms []*sipMsg
	s.Go(fmt.Sprint("sip-writer", id), func() {
		for i, n := 0, 1+s.Int(3); i < n; i++ {
			g, m := s02Built(s)
			if len(m.body) == 0 { // a finding of its own
				continue
			}
			b := written(s, g)
			checkWritten(s, fmt.Sprintf("connection %d message %d", id, i), b, m)
			ms = append(ms, m)
			for p := 0; p < len(b); {
				k := min(len(b)-p, 1+s.Size(3000))
				l.Write(b[p : p+k])
				p += k
			}
		}
		l.Close()
	})
	s.Go(fmt.Sprint("sip-reader", id), func() {
		r := bufio.NewReaderSize(l, readerSize(s))
		for i := 0; ; i++ {
			g := sips.NewSIP()
			if err := g.Parse(r); err != nil {
				if i != len(ms) || !l.Ended {
					s.Fail("parse-error", "connection %d message %d of %d: %v", id, i, len(ms), err)
				}
				return
			}
			where := fmt.Sprintf("connection %d message %d", id, i)
			if i >= len(ms) {
				s.Fail("message-from-nothing", "%s: after the last one", where)
			}
			ms[i].hdr["content-length"] = []string{g.Headers.GetFirstHeader("content-length")}
			checkSIP(s, where, g, ms[i])
		}
	})
}

func newUser(a sipAddr) *sips.SIPUser {
	u := sips.NewSIPUser("")
	u.URIType, u.Name, u.User, u.Host, u.Port = a.uri.typ, a.name, a.uri.user, a.uri.host, a.uri.port
	for k, v := range a.uri.args {
		u.Args.Set(k, v)
	}
	return u
}

func newRequest(uri sipURI) *sips.SIPRequest {
	u := sips.NewSIPRequest("")
	u.URIType, u.User, u.Host, u.Port = uri.typ, uri.user, uri.host, uri.port
	for k, v := range uri.args {
		u.Args.Set(k, v)
	}
	return u
}

func (m *sipMsg) set(n, v string) {
	if m.hdr[n] == nil {
		m.names = append(m.names, n)
	}
	m.hdr[n] = []string{v}
}

func s02Chain(s *core.Sim, id int) {
	hops := 1 + s.Int(4)
	trim := s.Chance(500) // relays that know the finding strip the separator
	var ms []*sipMsg
	links := make([]*core.Link, hops)
	for i := range links {
		links[i] = s.Link(fmt.Sprintf("hop%d-%d", id, i))
	}
	// send writes a message and reports what stands in front of its body
	send := func(where string, l *core.Link, g *sips.SIP, m *sipMsg) {
		b := written(s, g)
		checkWritten(s, where, b, m)
		if len(g.Payload()) == 0 && !bytes.HasSuffix(b, []byte("\r\n\r\n")) {
			s.Finding("bodyless-unterminated", "%s: a message without a body is written without the empty line that ends its header", where)
			b = append(b, "\r\n"...)
		}
		for p := 0; p < len(b); {
			k := min(len(b)-p, 1+s.Size(3000))
			l.Write(b[p : p+k])
			p += k
		}
	}
	back := s.Link(fmt.Sprintf("back%d", id))
	var answers []*sipMsg
	answer := func(where string, g *sips.SIP, m *sipMsg) {
		h := sips.NewSIPHeader()
		names := []string{"via", "from", "to", "call-id", "cseq"}
		k := s.Int(len(names))
		names = append(names[k:len(names):len(names)], names[:k]...)
		a := &sipMsg{resp: true, version: "SIP/2.0", hdr: map[string][]string{}, from: m.from, to: m.to, cseq: m.cseq, via: m.via, vias: m.vias}
		for _, x := range names {
			h.CopyFrom(g.Headers, randCase(s, x))
			if s.Chance(50) { // what becomes of the copy does not touch the request
				had := append([]string(nil), g.Headers.GetHeader(x)...)
				for i := range h[x] {
					h[x][i] = "changed"
				}
				h[x] = append(h[x], "more")
				if fmt.Sprint(had) != fmt.Sprint(g.Headers.GetHeader(x)) {
					s.Fail("copy-shared", "%s: changing a copied %s header changes the message it came from", where, x)
				}
				h.CopyFrom(g.Headers, x)
				s.Probe("copy-changed")
			}
			a.names = append(a.names, x)
			a.hdr[x] = append([]string(nil), m.hdr[x]...)
		}
		r := sipReasons[s.Int(len(sipReasons))]
		a.code, a.reason = r.code, r.text
		a.body = s.Bytes(s.Size(200))
		a.set("content-length", strconv.Itoa(len(a.body)))
		answers = append(answers, a)
		s.Probe("answered")
		send(where+", answering", back, sips.MakeResponse(sips.SIPStatus(r.code), h, a.body), a)
	}
	// edit changes a parsed message the way proxies do; the new fields take the
	// place of whatever form the message used
	edit := func(g *sips.SIP, m *sipMsg) {
		s.Probe("edited-by-relay")
		h := g.Headers
		switch s.Int(8) {
		case 6: // what the server that received it notes in the via
			v := h.GetSIPVia()
			if len(m.hdr["via"]) != 1 || strings.ContainsAny(m.hdr["via"][0], ",\"") {
				break
			}
			w := m.via
			w.args = map[string]string{}
			for k, x := range m.via.args {
				w.args[k] = x
			}
			w.args["received"] = "192.0.2.1"
			v.Args.Set("received", "192.0.2.1")
			delete(w.args, "rport")
			v.Args.Del("rport")
			if v.Args.Get("received") != "192.0.2.1" || v.Args.Get("rport") != "" {
				s.Fail("written-via", "parameters set and deleted: %q and %q", v.Args.Get("received"), v.Args.Get("rport"))
			}
			h.SetSIPVia(v)
			m.via = w
			m.set("via", h.GetFirstHeader("Via"))
			m.vias = map[string]sipURI{m.hdr["via"][0]: w}
			checkViaText(s, "Via", m.hdr["via"][0], w)
			s.Probe("via-edited")
		case 7: // fields of a body, one in a line
			a, want := sips.NewArgs(), map[string]bool{}
			for j, k := 0, s.Int(4); j < k; j++ {
				n, v := fmt.Sprintf("f%d", j), genToken(s, 8)
				a.Set(n, v)
				want[n+"="+v] = true
			}
			t := a.CRLFString()
			ls := strings.SplitAfter(t, "\r\n")
			ok := len(ls) == len(want)+1 && ls[len(ls)-1] == ""
			for _, l := range ls[:len(ls)-1] {
				if l = strings.TrimSuffix(l, "\r\n"); !want[l] {
					ok = false
				}
				delete(want, l)
			}
			if !ok {
				s.Fail("written-lines", "parameters as lines: %q", t)
			}
		case 0:
			k := s.Int(71)
			h.SetMaxForwards(k)
			m.set("max-forwards", strconv.Itoa(k))
		case 1:
			h.SetSubject("routed")
			m.set("subject", "routed")
		case 2:
			h.SetContentType("application/sdp")
			m.set("content-type", "application/sdp")
		case 3:
			a := sipAddr{name: "Proxy; 1", uri: genURI(s, true)}
			a.uri.args = genArgs(s, "expires", "q")
			h.SetSIPContact(newUser(a))
			m.contact = &a
			m.set("contact", h.GetFirstHeader("Contact"))
			checkAddrText(s, "Contact", m.hdr["contact"][0], a)
		case 4:
			h.SetFirstHeader(randCase(s, "Session-Expires"), "1800")
			m.set("session-expires", "1800")
		case 5:
			if !m.resp { // a new target
				u := genURI(s, true)
				u.args = genArgs(s, "transport", "lr")
				g.Request = newRequest(u)
				m.uri = u
			}
		}
	}
	n := stretch(s, 1+s.Int(4), 300)
	origin := s.Chance(600)
	eol := genEOL(s)
	for i := 0; i < n; i++ {
		ms = append(ms, nil)
	}
	s.Go(fmt.Sprint("client", id), func() {
		for i := range ms {
			if origin {
				g, m := s02Built(s)
				ms[i] = m
				send(fmt.Sprintf("chain %d message %d, first sender", id, i), links[0], g, m)
			} else {
				m := genSIP(s, sipOpts{maxBody: 2000, multi: true, compact: true, folds: true, quoted: true}, eol)
				if m.resp { // the reason phrase is not the relay's to keep
					r := sipReasons[s.Int(len(sipReasons))]
					m.wire = bytes.Replace(m.wire, []byte(fmt.Sprintf(" %d %s%s", m.code, m.reason, eol)), []byte(fmt.Sprintf(" %d %s%s", r.code, r.text, eol)), 1)
					m.code, m.reason = r.code, r.text
				}
				ms[i] = m
				links[0].Write(m.wire)
			}
			s.Ev("sent", uint64(i))
		}
		links[0].Close()
	})
	s.Go(fmt.Sprint("caller", id), func() {
		r := bufio.NewReader(back)
		for i := 0; ; i++ {
			g := sips.NewSIP()
			if err := g.Parse(r); err != nil {
				if i != len(answers) {
					s.Fail("parse-error", "chain %d, answer %d of %d: %v", id, i, len(answers), err)
				}
				return
			}
			where := fmt.Sprintf("chain %d, answer %d of %d", id, i, len(answers))
			if i >= len(answers) {
				s.Fail("message-from-nothing", "%s: after the last one", where)
			}
			checkSIP(s, where, g, answers[i])
			a := answers[i]
			a.sep = "\r\n"
			checkPayload(s, where, g, a)
		}
	})
	for h := 0; h < hops; h++ {
		s.Go(fmt.Sprintf("relay%d-%d", id, h), func() {
			r := bufio.NewReaderSize(links[h], readerSize(s))
			for i := range ms {
				where := fmt.Sprintf("chain %d message %d, hop %d", id, i, h)
				g := sips.NewSIP()
				if err := g.Parse(r); err != nil {
					s.Fail("parse-error", "%s: %v", where, err)
				}
				m := ms[i]
				// the length is what the sender of this hop declared
				cl := g.Headers.GetFirstHeader("content-length")
				saved := m.hdr["content-length"]
				m.hdr["content-length"] = []string{cl}
				checkSIP(s, where, g, m)
				m.hdr["content-length"] = saved
				p := g.Payload()
				if !bytes.Equal(p, m.body) {
					// one separator per hop that did not strip it
					k := h + 1
					sep := "\r\n"
					first := sep
					if !origin {
						first = m.sep
					}
					if trim {
						k = 1
						if h == 0 {
							sep = first
						}
						first = sep
					}
					want := strings.Repeat("\r\n", k-1) + first + string(m.body)
					if string(p) != want {
						s.Fail("wrong-body", "%s: payload: %s", where, firstDiff(p, m.body))
					}
					s.Finding("payload-includes-separator", "%s: the payload begins with the empty line that ends the header, a relay that writes it again adds one more", where)
					if trim {
						g.SetBody(p[len(first):])
					}
				}
				s.Ev("relayed", uint64(h))
				if s.Chance(200) {
					edit(g, m)
				}
				if h+1 < hops {
					s.Probe("relayed")
					send(where, links[h+1], g, m)
				} else if !m.resp && s.Chance(500) {
					answer(where, g, m)
				}
			}
			if h+1 == hops {
				back.Close()
			}
			if err := sips.NewSIP().Parse(r); err == nil {
				s.Fail("message-from-nothing", "chain %d hop %d: a message after the last one", id, h)
			}
			if h+1 < hops {
				links[h+1].Close()
			}
		})
	}
}

// ---- S03: hostile messages are contained

// sipFlood repeats one part of a message as often as a datagram has room for.
func sipFlood(s *core.Sim) []byte {
	s.Probe("flood")
	f := [][3]string{
		{"INVITE sip:a@b SIP/2.0\r\nSubject: a\r\n", " b\r\n", "\r\n"},
		{"INVITE sip:a@b SIP/2.0\nSubject: a\n", "\t\n", "\n"},
		{"INVITE sip:a@b SIP/2.0\nSubject: a\n", " \"b;\n", "\n"},
		{"BYE sip:a@b SIP/2.0\r\n", "a:\r\n", "\r\n"},
		{"BYE sip:a@b SIP/2.0\n", "v:\n", "\n"},
		{"BYE sip:a@b SIP/2.0\n", "via:x\nv:y\n", "\n"},
		{"BYE sip:a@b SIP/2.0\n", "x\n", "\n"},
		{"BYE sip:a@b SIP/2.0\r\nFrom: <sip:a@b>", ";x=y", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nFrom: <sip:a@b>;x=\"", "\\\"", "\"\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nTo: \"", "\\\"", "\" <sip:a@b>\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nTo: ", "<", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nTo: <sip:", "@", ">\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nContact: <sip:a", ";", "@b>\r\n\r\n"},
		{"BYE sip:", ":", " SIP/2.0\r\n\r\n"},
		{"BYE sip:a", ";x", " SIP/2.0\r\n\r\n"},
		{"BYE ", " ", "sip:a@b SIP/2.0\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h", ",SIP/2.0/UDP h", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h", ";branch=z", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nVia: ", "SIP/2.0/UDP ", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nAuthorization: Digest a=\"b\"", ",a=\"b\"", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nAuthorization: Digest ", "=", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nCSeq: ", "1", " BYE\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nContent-Length: ", "0", "\r\n\r\n"},
		{"BYE sip:a@b SIP/2.0\r\nContent-Length: 0", "\r\nl: 0", "\r\n\r\n"},
		{"", "\r\n", "BYE sip:a@b SIP/2.0\r\nl:0\r\n\r\n"},
		{"", "BYE sip:a SIP/2.0\nl:0\n\n", ""},
		{"SIP/2.0 200 ", "x ", "\r\nl:0\r\n\r\n"},
	}
	u := f[s.Int(len(f))]
	s.Logf("flood of %q", u[1])
	n := (hostileMax - len(u[0]) - len(u[2]) - 20) / len(u[1])
	n -= s.Size(n)
	end := u[2]
	if s.Chance(700) && strings.HasSuffix(end, "\r\n\r\n") {
		end = end[:len(end)-2] + "l: 0\r\n\r\n"
	} else if s.Chance(700) && u[0] != "" && !strings.Contains(u[0], "Content-L") {
		end = "l:0\n" + end
		if !strings.HasSuffix(u[1], "\n") {
			end = "\n" + end
		}
	}
	return []byte(u[0] + strings.Repeat(u[1], n) + end)
}

func runS03(s *core.Sim) {
	s.Faulty = true
	for i, n := 0, 1+s.Int(2); i < n; i++ {
		id := i
		good := genSIP(s, sipOpts{folds: true, compact: true, multi: true, quoted: true, maxBody: 300}, "\r\n")
		var bad []byte
		refuse, flood := false, false
		switch k := s.Int(6); {
		case s.Chance(30): // very many of something
			bad = sipFlood(s)
			flood = true
		case k == 5: // a start line that is none
			line := []string{"HELLO sip:a SIP/2.0", "INVITE sip:a SIP/3.0", "INVITE sip:a HTTP/1.1", "INVITE sip:a", "INVITE", "SIP/2.0 OK", "SIP/2.0 two OK", "SIP/2.0 20O OK", "SIP/2.0  200 OK", "SIP/9.9 200 OK", "SIP/2.0/UDP 200 OK", "HTTP/1.1 200 OK", "sip:a INVITE SIP/2.0", "INVITE sip:a SIP/2.0 x", "Via: SIP/2.0/UDP h", "v=0"}[s.Int(16)]
			bad = append([]byte(line), good.wire[bytes.IndexByte(good.wire, '\n')-1:]...)
			refuse = true
			s.Probe("bad-start-line")
		case k == 0:
			bad = s.Bytes(s.Size(2000))
		case k == 1: // a soup of delimiters
			toks := []string{"\r\n", "\n", ":", ";", "=", "\"", "<", ">", "@", " ", "\t", ",", "sip:", "sips:", "tel:", "SIP/2.0", "SIP/2.0/", "SIP/2.0/UDP", "Content-Length:", "l:", "f:", "From:", "m:", "Via:", "CSeq:", "Authorization:", "Digest ", "\\", "9999999999", "-1", "0", "200", "INVITE", "\x00", "\xff"}
			if s.Chance(600) {
				bad = append(bad, []string{"INVITE sip:a SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", "BYE ; SIP/2.0\r\n", "SIP/2.0  \r\n"}[s.Int(4)]...)
			}
			for k := s.Size(400); k > 0; k-- {
				bad = append(bad, toks[s.Int(len(toks))]...)
			}
			if s.Chance(500) {
				bad = append(bad, "\r\nl:0\r\n\r\n"...)
			}
		case k == 2: // a length the peer only claims
			bad = []byte("INVITE sip:a@b SIP/2.0\r\nContent-Length: " + []string{"2147483647", "9223372036854775807", "1000000000", "99999999999999999999", "+5", "0x10", "1e3"}[s.Int(7)] + "\r\n\r\n")
			bad = append(bad, s.Bytes(s.Size(4000))...)
			s.Probe("claimed-length")
		default:
			bad = mutate(s, good.wire)
		}
		if len(bad) > hostileMax {
			bad = bad[:hostileMax]
		}
		l := s.Source(fmt.Sprint("hostile", id), bad)
		s.Go(fmt.Sprint("victim", id), func() {
			s.Fault("hostile-bytes")
			n := uint64(len(bad))
			// what the simulated connection allocates counts, too
			perByte, in := uint64(6000), io.Reader(l)
			if flood {
				perByte, in = 600, bytes.NewReader(bad)
			}
			s.Alloc(1<<20+perByte*n, fmt.Sprintf("parsing %d hostile bytes", n), func() {
				s.Budget(int64(100000+400*n), fmt.Sprintf("parsing %d hostile bytes", n), func() {
					r := bufio.NewReader(in)
					for k := 0; k <= len(bad); k++ {
						g := sips.NewSIP()
						if err := g.Parse(r); err != nil {
							s.Logf("refused: %v", err)
							s.Probe("hostile-refused")
							return
						}
						if refuse && k == 0 {
							s.Fail("start-line-accepted", "a message that begins with %q is taken for a SIP message", bad[:bytes.IndexByte(bad, '\r')])
						}
						s.Probe("hostile-accepted")
						if !bytes.Contains(bad, g.LayerContents()) || !bytes.Contains(bad, g.Payload()) {
							s.Fail("bytes-from-nothing", "contents or payload were not received")
						}
						g.Bytes()
						g.Headers.GetAuthorization()
						if g.Request != nil {
							g.Request.ToUser().ToRequest().Bytes()
						}
						g.From.ToRequest().ToUser().Bytes()
						g.Contact.Bytes()
						g.Via.Bytes()
						g.Cseq.Bytes()
					}
				})
			})
			g := sips.NewSIP()
			if err := g.Parse(bufio.NewReader(s.Source(fmt.Sprint("good", id), good.wire))); err != nil {
				s.Fail("parser-poisoned", "after hostile input, a good message fails: %v", err)
			}
			checkSIP(s, "good message after hostile input", g, good)
		})
	}
	stuck(s, s.Run())
}

// ---- S04: broken connections

func runS04(s *core.Sim) {
	sometimesPreempt(s)
	for i, n := 0, 1+s.Int(2); i < n; i++ {
		id := i
		eol := genEOL(s)
		size := readerSize(s)
		o := sipOpts{folds: true, compact: true, multi: true, quoted: true, maxBody: 1500}
		if s.Chance(200) {
			o.maxBody = 12000
		}
		var ms []*sipMsg
		var ends []int
		var wire []byte
		for j, k := 0, 1+s.Int(4); j < k; j++ {
			m := genSIP(s, o, eol)
			m.start = len(wire)
			wire = append(wire, m.wire...)
			ms = append(ms, m)
			ends = append(ends, len(wire))
		}
		l := s.Source(fmt.Sprint("tcp", id), wire)
		cut, cutErr, once := len(wire), error(io.EOF), false
		if s.FaultChance(950) {
			cut = s.Int(len(wire) + 1)
			if s.Chance(400) { // into a body, or right at its edges
				m := ms[s.Int(len(ms))]
				cut = min(len(wire), m.start+m.head+s.Int(len(m.sep)+len(m.body)+1))
			}
			cutErr = append([]error{io.EOF}, core.ReadErrors...)[s.Int(1+len(core.ReadErrors))]
			l.Cut(cut, cutErr)
			if once = cutErr == core.ErrTimeout && s.Chance(500); once {
				l.CutOnce(cut, cutErr)
			}
		}
		s.Go(fmt.Sprint("receiver", id), func() {
			r := bufio.NewReaderSize(l, size)
			for j, m := range ms {
				g := sips.NewSIP()
				err := g.Parse(r)
				where := fmt.Sprintf("connection %d (%d bytes, broken at %d with %v) message %d, bytes %d to %d", id, len(wire), cut, cutErr, j, m.start, ends[j])
				if ends[j] <= cut {
					if err != nil {
						s.Fail("parse-error", "%s arrived whole: %v", where, err)
					}
					checkSIP(s, where, g, m)
					checkPayload(s, where, g, m)
					s.Ev("whole", uint64(j))
					continue
				}
				if cutErr != io.EOF {
					if err == nil {
						s.Fail("failure-not-reported", "%s: no error", where)
					}
					s.Probe("error-inside-a-message")
				} else {
					if cut <= m.start+m.ctlen && err == nil {
						s.Fail("cut-not-reported", "%s: a message without a length is delivered", where)
					}
					if err == nil {
						s.Probe("short-message")
						if !isPrefix(g.LayerContents(), m.wire[:m.head]) {
							s.Fail("wrong-contents", "%s: header is none that was sent: %s", where, firstDiff(g.LayerContents(), m.wire[:m.head]))
						}
						if !isPrefix(g.Payload(), m.wire[m.head:]) && !isPrefix(g.Payload(), m.body) {
							s.Fail("wrong-body", "%s: payload is none that was sent", where)
						}
						if cut > m.start+m.head {
							checkSIP(s, where, g, m)
							if want, _ := g.Headers.GetContentLength(); cut > m.start+m.head+len(m.sep) && len(g.Payload())-len(m.sep) >= want {
								s.Fail("cut-not-visible", "%s: the payload of %d bytes does not show that it is incomplete", where, len(g.Payload()))
							}
						}
					}
				}
				s.Ev("end", uint64(j))
				if once { // what comes next is the rest of this message
					return
				}
				if err := sips.NewSIP().Parse(r); err == nil {
					s.Fail("message-from-nothing", "%s: another message follows", where)
				}
				return
			}
		})
	}
	stuck(s, s.Run())
}

func init() {
	files := []string{"sips/"}
	reg(&Prop{ID: "S01", Run: runS01, Quick: 90000, Files: files, Real: sipReal, Stub: netStub,
		Rule:   "each run draws 1-3 connections with pipelined conforming messages (folded, compact, repeated and oddly cased headers, either line ending, bodies that look like messages, keep-alive lines), delivered split and delayed, or as datagrams that are lost, repeated and reordered; what was parsed is compared after the last message.",
		Faults: []string{"short-read", "empty-read", "link-stall", "datagram-lost", "datagram-repeated", "datagram-reordered"}, Probes: []string{"folded-header", "compact-name", "several-values", "keep-alive-lines", "datagrams", "uri-without-user", "tel-uri", "ipv6-host", "escaped-name", "uri-parameters-in-brackets", "spaced-parameter", "listed-vias", "both-names-of-a-header", "delimiters-in-user", "spaced-via", "odd-case-version", "long-line", "line-by-line", "long-history"}})
	reg(&Prop{ID: "S02", Run: runS02, Quick: 70000, Files: files, Real: sipReal, Stub: netStub,
		Rule:   "each run draws 1-2 chains of 1-4 hops; messages built with the library or received from elsewhere are parsed and written again at every hop.",
		Faults: []string{"short-read", "link-stall"}, Probes: []string{"relayed", "answered", "edited-by-relay", "several-values", "uri-without-user", "tel-uri", "ipv6-host", "escaped-name", "via-edited", "built-authorization", "long-history"}})
	reg(&Prop{ID: "S03", Run: runS03, Quick: 120000, Files: files, Real: sipReal, Stub: netStub,
		Rule:   "each run draws hostile streams (damaged messages, delimiter soups, lengths only claimed, random bytes) of at most 64 KiB, parses and re-writes them under a statement and allocation budget, and then parses a good message.",
		Faults: []string{"hostile-bytes", "short-read"}, Probes: []string{"claimed-length", "flood", "bad-start-line", "hostile-refused", "hostile-accepted"}})
	reg(&Prop{ID: "S04", Run: runS04, Quick: 240000, Files: files, Real: sipReal, Stub: netStub,
		Rule:   "each run draws pipelined messages and breaks the connection at a drawn byte, by closing it or with an error.",
		Faults: []string{"short-read", "stream-cut", "connection-reset", "read-timeout"}, Probes: []string{"error-inside-a-message", "short-message"}})
}
