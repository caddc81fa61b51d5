package h

import (
	"bufio"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"
)

// Line is one IRC message received from soju.
type Line struct {
	*irc.Message
	Raw string
}

func (l Line) String() string { return l.Raw }

// Param returns the i-th parameter or "".
func (l Line) P(i int) string {
	if i >= 0 && i < len(l.Params) {
		return l.Params[i]
	}
	return ""
}

// Peer is an IRC connection with a recorded transcript of received lines.
type Peer struct {
	Name string
	t    *T
	conn net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	// received lines
	lines   []Line
	sent    []string
	closed  bool
	parseEr error
	wmu     sync.Mutex
	// onLine runs in the reader goroutine, before the line is recorded.
	onLine func(l Line)
}

func newPeer(t *T, name string, conn net.Conn) *Peer {
	p := &Peer{Name: name, t: t, conn: conn}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *Peer) readLoop() {
	r := bufio.NewReaderSize(p.conn, 1<<16)
	for {
		s, err := r.ReadString('\n')
		if err != nil {
			break
		}
		s = strings.TrimRight(s, "\r\n")
		if s == "" {
			continue
		}
		msg, perr := parseLine(s)
		if perr != nil {
			p.mu.Lock()
			p.parseEr = fmt.Errorf("unparsable line %q: %v", s, perr)
			p.cond.Broadcast()
			p.mu.Unlock()
			continue
		}
		l := Line{msg, s}
		p.mu.Lock()
		p.lines = append(p.lines, l)
		p.mu.Unlock()
		if p.onLine != nil {
			p.onLine(l)
		}
		p.mu.Lock()
		p.cond.Broadcast()
		p.mu.Unlock()
	}
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

// ParseErr returns the first unparsable line soju sent, if any.
func (p *Peer) ParseErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.parseEr
}

// Raw writes bytes as they are.
func (p *Peer) Raw(b string) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.conn.SetWriteDeadline(time.Now().Add(Watchdog))
	_, err := p.conn.Write([]byte(b))
	return err
}

// Send writes lines.
func (p *Peer) Send(lines ...string) {
	p.mu.Lock()
	p.sent = append(p.sent, lines...)
	p.mu.Unlock()
	p.Raw(strings.Join(lines, "\r\n") + "\r\n")
}

func (p *Peer) Sendf(format string, a ...interface{}) { p.Send(fmt.Sprintf(format, a...)) }

func (p *Peer) Close() { p.conn.Close() }

// Reset closes the connection abruptly.
func (p *Peer) Reset() {
	if c, ok := p.conn.(*net.TCPConn); ok {
		c.SetLinger(0)
	}
	p.conn.Close()
}

// CloseWait closes the connection and waits for the reader to end.
func (p *Peer) CloseWait() {
	p.conn.Close()
	p.mu.Lock()
	for !p.closed {
		p.cond.Wait()
	}
	p.mu.Unlock()
}

// Closed tells whether the remote end has closed.
func (p *Peer) Closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

// Mark returns the current transcript position.
func (p *Peer) Mark() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.lines)
}

// Since returns the lines received after position from.
func (p *Peer) Since(from int) []Line {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Line(nil), p.lines[from:]...)
}

// Lines returns the whole transcript.
func (p *Peer) Lines() []Line { return p.Since(0) }

// Wait blocks until pred holds for a line at or after from; it returns its
// index. It returns -1 if the connection closed first.
func (p *Peer) Wait(from int, what string, pred func(l Line) bool) int {
	deadline := time.AfterFunc(Watchdog, func() {
		p.mu.Lock()
		p.cond.Broadcast()
		p.mu.Unlock()
	})
	defer deadline.Stop()
	start := time.Now()
	p.mu.Lock()
	defer p.mu.Unlock()
	i := from
	for {
		for ; i < len(p.lines); i++ {
			if pred(p.lines[i]) {
				return i
			}
		}
		if p.closed {
			return -1
		}
		if time.Since(start) >= Watchdog {
			p.dumpLocked()
			panic(Stuck{fmt.Sprintf("%s: no %s within %v", p.Name, what, Watchdog)})
		}
		p.cond.Wait()
	}
}

// WaitClosed blocks until the remote end closes the connection.
func (p *Peer) WaitClosed(what string) {
	deadline := time.AfterFunc(Watchdog, func() {
		p.mu.Lock()
		p.cond.Broadcast()
		p.mu.Unlock()
	})
	defer deadline.Stop()
	start := time.Now()
	p.mu.Lock()
	defer p.mu.Unlock()
	for !p.closed {
		if time.Since(start) >= Watchdog {
			p.dumpLocked()
			panic(Stuck{fmt.Sprintf("%s: not closed (%s) within %v", p.Name, what, Watchdog)})
		}
		p.cond.Wait()
	}
}

func (p *Peer) dumpLocked() {
	n := len(p.lines)
	a := n - 60
	if a < 0 {
		a = 0
	}
	var sb strings.Builder
	for _, l := range p.lines[a:] {
		sb.WriteString("  <- " + l.Raw + "\n")
	}
	b := len(p.sent) - 40
	if b < 0 {
		b = 0
	}
	for _, s := range p.sent[b:] {
		sb.WriteString("  -> " + s + "\n")
	}
	p.t.Logf("transcript of %s (closed=%v, last %d of %d lines received from soju, then last lines sent):\n%s", p.Name, p.closed, n-a, n, sb.String())
}

// Dump writes the transcript tail into the case's trace.
func (p *Peer) Dump() {
	p.mu.Lock()
	p.dumpLocked()
	p.mu.Unlock()
}

// parseLine parses a line; the library panics on lines ending after the tags.
func parseLine(s string) (m *irc.Message, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return irc.ParseMessage(s)
}

// Addrs returns the addresses of the connection.
func (p *Peer) Addrs() (local, remote net.Addr) { return p.conn.LocalAddr(), p.conn.RemoteAddr() }
