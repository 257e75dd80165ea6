package core

import (
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
)

// Errors the simulated environment raises.
var (
	ErrReset   = ioErr("connection reset", syscall.ECONNRESET)
	ErrTimeout = ioErr("timeout", os.ErrDeadlineExceeded) // a net.Error like the one of a real connection
	ErrNoSpace = ioErr("full disk", syscall.ENOSPC)
	ErrIO      = ioErr("disk error", syscall.EIO)
	ErrBroken  = ioErr("broken pipe", syscall.EPIPE)
)

func ioErr(op string, err error) error {
	return &net.OpError{Op: "sim: " + op, Net: "sim", Err: err}
}

// ReadErrors is what ends a connection other than a close.
var ReadErrors = []error{ErrReset, ErrTimeout, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed}

// WriteErrors is what stops an output. Some channels report io.EOF when their far
// end is gone.
var WriteErrors = []error{ErrNoSpace, ErrIO, ErrBroken, ErrTimeout, io.ErrShortWrite, io.ErrClosedPipe, io.EOF, ErrReset}

// LinkCfg says how a link treats its bytes.
type LinkCfg struct {
	MaxRead int   // largest read it grants, 0: no limit
	Latency int64 // up to this long per write
	Window  int   // bytes in flight before writes block, 0: no limit
	Zero    int   // permille of reads that return 0, nil
	EOFWith bool  // the last bytes may come together with io.EOF
	CutAt   int   // the reader sees CutErr after this many bytes, -1: never
	CutErr  error
	CutOnce bool // reads work again after CutErr, as after a timeout
	FlipAt  int  // this byte arrives changed, -1: none
	FlipXor byte
	StallAt int // transfer stalls once here for StallFor, -1: none
	Stall   int64
}

// Link is one direction of a simulated connection. Bytes are never lost or
// reordered inside it; what varies is how reads split them, when they arrive,
// and whether and where the connection ends.
type Link struct {
	s        *Sim
	Name     string
	cfg      LinkCfg
	segs     []seg
	inflight int
	arrive   int64
	Sent     int // bytes accepted from the writer
	Read_    int // bytes handed to the reader
	closed   bool
	dead     bool // reader side gone
	Reads    int
	Ended    bool // the reader has been told the end
	Want     int  // largest request a reader made
}

type seg struct {
	b  []byte
	at int64
}

// Link makes a link with drawn characteristics. Faults other than splitting and
// delay are added with the fields of the result's configuration.
func (s *Sim) Link(name string) *Link {
	c := LinkCfg{CutAt: -1, FlipAt: -1, StallAt: -1}
	switch s.Int(6) {
	case 0:
	case 1:
		c.MaxRead = 1
	case 2:
		c.MaxRead = 1 + s.Int(4)
	case 3:
		c.MaxRead = 1 + s.Int(32)
	case 4:
		c.MaxRead = 1 + s.Int(1500)
	case 5:
		c.MaxRead = 1 + s.Int(4096)
	}
	if s.Chance(300) {
		c.Latency = int64(1+s.Int(200)) * 1e6
	}
	if s.Chance(300) {
		c.Window = 1 + s.Int(600)
	}
	if s.FaultChance(150) {
		c.Zero = 50 + s.Int(200)
	}
	c.EOFWith = s.Chance(300)
	if s.FaultChance(150) {
		c.StallAt, c.Stall = s.Int(2000), int64(1+s.Int(60))*1e9
	}
	return &Link{s: s, Name: name, cfg: c}
}

// NewLink makes a link with exactly this configuration.
func (s *Sim) NewLink(name string, c LinkCfg) *Link { return &Link{s: s, Name: name, cfg: c} }

// Cut makes the reader see err once n bytes have passed.
func (l *Link) Cut(n int, err error) { l.cfg.CutAt, l.cfg.CutErr = n, err }

// Flip changes byte n on its way.
func (l *Link) Flip(n int, xor byte) { l.cfg.FlipAt, l.cfg.FlipXor = n, xor }

// Write hands bytes to the link. It may block, and it copies what it takes only
// as it takes it, so a caller that reuses its buffer too early is found out.
func (l *Link) Write(p []byte) (int, error) {
	s := l.s
	n := 0
	s.Yield()
	for n < len(p) {
		if l.dead {
			return n, ErrBroken
		}
		k := len(p) - n
		if w := l.cfg.Window; w > 0 {
			if s.InTask() {
				s.Block(func() bool { return l.inflight < w || l.dead })
				if l.dead {
					return n, ErrBroken
				}
				k = min(k, w-l.inflight)
			}
		}
		at := s.now
		if l.cfg.Latency > 0 {
			at += int64(s.Int(int(l.cfg.Latency/1000)+1)) * 1000
		}
		if l.cfg.StallAt >= 0 && l.Sent+k > l.cfg.StallAt {
			at += l.cfg.Stall
			l.cfg.StallAt = -1
			s.Fault("link-stall")
		}
		if at < l.arrive {
			at = l.arrive
		}
		l.arrive = at
		if at > s.now {
			s.After(at-s.now, func() {})
		}
		b := append([]byte(nil), p[n:n+k]...)
		if f := l.cfg.FlipAt; f >= l.Sent && f < l.Sent+k {
			b[f-l.Sent] ^= l.cfg.FlipXor
			s.Fault("byte-corruption")
		}
		l.segs = append(l.segs, seg{b, at})
		l.inflight += k
		l.Sent += k
		n += k
	}
	s.Logf("%s: sent %d bytes", l.Name, n)
	return n, nil
}

// Close ends the stream after what was sent.
func (l *Link) Close() { l.closed = true }

// Kill makes further writes fail, as when the reader is gone.
func (l *Link) Kill() { l.dead = true }

// Read delivers what has arrived, possibly less than asked for.
func (l *Link) Read(p []byte) (int, error) {
	s := l.s
	l.Reads++
	if len(p) > l.Want {
		l.Want = len(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if l.cfg.CutAt >= 0 && l.Read_ >= l.cfg.CutAt {
		return 0, l.end()
	}
	ready := func() bool {
		return len(l.segs) > 0 && l.segs[0].at <= s.now || len(l.segs) == 0 && l.closed
	}
	if !ready() {
		if !s.InTask() {
			if len(l.segs) == 0 {
				panic("sim: read from an open, empty link outside a task")
			}
			s.now = l.segs[0].at
		} else {
			s.Block(ready)
		}
	} else if s.InTask() {
		s.Yield()
	}
	if len(l.segs) == 0 {
		l.Ended = true
		return 0, io.EOF
	}
	if l.cfg.Zero > 0 && s.Chance(l.cfg.Zero) {
		s.Fault("empty-read")
		return 0, nil
	}
	n := min(len(p), len(l.segs[0].b))
	if m := l.cfg.MaxRead; m > 0 && n > 1 {
		k := min(n, m)
		if k > 1 && m > 1 {
			k -= s.Int(k)
		}
		if k < n && k < len(p) {
			s.Fault("short-read")
		}
		n = k
	}
	if l.cfg.CutAt >= 0 {
		n = min(n, l.cfg.CutAt-l.Read_)
	}
	copy(p, l.segs[0].b[:n])
	l.Read_ += n
	l.inflight -= n
	l.segs[0].b = l.segs[0].b[n:]
	if len(l.segs[0].b) == 0 {
		l.segs = l.segs[1:]
	}
	if l.cfg.CutAt >= 0 && l.Read_ >= l.cfg.CutAt && l.cfg.EOFWith {
		return n, l.end()
	}
	if l.cfg.EOFWith && l.closed && len(l.segs) == 0 {
		l.Ended = true
		return n, io.EOF
	}
	return n, nil
}

// CutOnce makes one read fail with err once n bytes have passed. It fails with
// no bytes: an error that comes with the bytes a reader asked for may be left
// for its next read to tell, which here succeeds.
func (l *Link) CutOnce(n int, err error) {
	l.Cut(n, err)
	l.cfg.CutOnce, l.cfg.EOFWith = true, false
}

func (l *Link) end() error {
	if l.cfg.CutOnce {
		l.cfg.CutAt = -1
		l.s.Fault("read-timeout")
		return l.cfg.CutErr
	}
	if !l.Ended {
		l.Ended = true
		if l.cfg.CutErr == io.EOF {
			l.s.Fault("stream-cut")
		} else {
			l.s.Fault("connection-reset")
		}
	}
	return l.cfg.CutErr
}

// Source is a link already filled with data and closed.
func (s *Sim) Source(name string, data []byte) *Link {
	l := s.Link(name)
	l.cfg.Window = 0
	l.Write(data)
	l.Close()
	return l
}

// Sink is a simulated file or socket to write to.
type Sink struct {
	s      *Sim
	Name   string
	Data   []byte
	FailAt int // fail the write that would pass this size, -1: never
	Err    error
	Short  bool // take part of the failing write
	Late   bool // take all of it
	Heal   int  // after this many failures work again, 0: stay broken
	Fails  int
	Writes int
	NoHand bool // do not hand over control while writing
	Delay  int64
	// OnWrite sees every accepted write.
	OnWrite func(p []byte)
}

// NewSink returns a sink without faults.
func (s *Sim) NewSink(name string) *Sink { return &Sink{s: s, Name: name, FailAt: -1} }

// Break plans a failure at size n.
func (k *Sink) Break(n int, err error, short bool, heal int) {
	k.FailAt, k.Err, k.Short, k.Heal, k.Late = n, err, short, heal, false
}

// PlanFault breaks the sink with the given probability somewhere in the next
// span bytes.
func (k *Sink) PlanFault(permille, span int) bool {
	s := k.s
	if !s.FaultChance(permille) {
		return false
	}
	errs := WriteErrors
	at := s.Int(span + 1)
	if s.Chance(200) { // a marker or a header
		at = min(at, s.Int(6))
	}
	k.Break(len(k.Data)+at, errs[s.Int(len(errs))], s.Chance(500), s.Int(4))
	k.Late = s.Chance(200) && k.Err != io.ErrShortWrite
	return true
}

// Write takes bytes, or fails as planned. Control may pass to other tasks before
// it copies, as it would in a blocking write.
func (k *Sink) Write(p []byte) (int, error) {
	s := k.s
	k.Writes++
	if s.InTask() && !k.NoHand {
		if k.Delay > 0 {
			s.Sleep(k.Delay)
		} else {
			s.Yield()
		}
	}
	if k.FailAt >= 0 && len(k.Data)+len(p) > k.FailAt {
		k.Fails++
		n := 0
		if k.Late { // all the bytes went, and the error came after them
			n = len(p)
			k.Data = append(k.Data, p...)
		} else if k.Short {
			n = max(0, min(len(p), k.FailAt-len(k.Data)))
			if n == len(p) {
				n = 0
			}
			k.Data = append(k.Data, p[:n]...)
		}
		err := k.Err
		if k.Late {
			s.Fault("late-write-error")
		} else if n > 0 {
			s.Fault("torn-write")
		} else {
			s.Fault("write-error")
		}
		s.Logf("%s: write of %d bytes failed after %d: %v", k.Name, len(p), n, err)
		if k.Heal > 0 && k.Fails >= k.Heal {
			k.FailAt = -1
		}
		return n, err
	}
	k.Data = append(k.Data, p...)
	if k.OnWrite != nil {
		k.OnWrite(p)
	}
	s.Logf("%s: wrote %d bytes", k.Name, len(p))
	return len(p), nil
}

// Hex shortens bytes for messages.
func Hex(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x..(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}
