package h

import (
	"bytes"
	"context"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/coder/websocket"
)

// WSConn presents a WebSocket client connection as a stream of lines.
type WSConn struct {
	c    *websocket.Conn
	mu   sync.Mutex
	wbuf []byte
	rbuf []byte
}

// DialWS connects to url through dial with the given request headers.
func DialWS(url string, dial func() (net.Conn, error), hdr http.Header) (*WSConn, *http.Response, error) {
	ctx, cancel := context.WithTimeout(context.Background(), Watchdog)
	defer cancel()
	opts := &websocket.DialOptions{HTTPHeader: hdr, Subprotocols: []string{"text.ircv3.net"}, CompressionMode: websocket.CompressionDisabled}
	if hdr.Get("Host") != "" {
		opts.Host = hdr.Get("Host")
	}
	if dial != nil {
		opts.HTTPClient = &http.Client{Transport: &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) { return dial() }}}
	}
	c, resp, err := websocket.Dial(ctx, url, opts)
	if err != nil {
		return nil, resp, err
	}
	c.SetReadLimit(1 << 20)
	return &WSConn{c: c}, resp, nil
}

func (w *WSConn) Read(b []byte) (int, error) {
	for len(w.rbuf) == 0 {
		_, m, err := w.c.Read(context.Background())
		if err != nil {
			return 0, io.EOF
		}
		w.rbuf = append(m, '\r', '\n')
	}
	n := copy(b, w.rbuf)
	w.rbuf = w.rbuf[n:]
	return n, nil
}

func (w *WSConn) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.wbuf = append(w.wbuf, b...)
	for {
		i := bytes.IndexByte(w.wbuf, '\n')
		if i < 0 {
			return len(b), nil
		}
		l := bytes.TrimSuffix(w.wbuf[:i], []byte("\r"))
		ctx, cancel := context.WithTimeout(context.Background(), Watchdog)
		err := w.c.Write(ctx, websocket.MessageText, l)
		cancel()
		w.wbuf = append([]byte(nil), w.wbuf[i+1:]...)
		if err != nil {
			return 0, err
		}
	}
}

func (w *WSConn) Close() error                     { return w.c.CloseNow() }
func (w *WSConn) LocalAddr() net.Addr              { return wsAddr{} }
func (w *WSConn) RemoteAddr() net.Addr             { return wsAddr{} }
func (w *WSConn) SetDeadline(time.Time) error      { return nil }
func (w *WSConn) SetReadDeadline(time.Time) error  { return nil }
func (w *WSConn) SetWriteDeadline(time.Time) error { return nil }

type wsAddr struct{}

func (wsAddr) Network() string { return "ws" }
func (wsAddr) String() string  { return "ws" }
