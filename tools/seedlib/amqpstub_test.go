package session

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)

// stubServer is a minimal AMQP 1.0 peer.
type stubServer struct {
	t      *testing.T
	ln     net.Listener
	mu     sync.Mutex
	conns  []*stubConn
	refuse func(c *stubConn, code byte) bool // close the connection instead of answering
	hold   func(c *stubConn, code byte) bool // never answer
}

type stubLink struct {
	name     string
	handle   uint64
	channel  uint16
	address  string
	receiver bool // the client receives
	credit   uint64
	sent     uint32
	open     bool
}

type stubConn struct {
	s           *stubServer
	n           int
	c           net.Conn
	wmu         sync.Mutex
	mu          sync.Mutex
	open        []any
	sasl        []any
	links       map[uint64]*stubLink
	attached    []*stubLink
	closed      bool // the client closed it
	gone        bool
	detached    int
	transferred int
}

func newStub(t *testing.T) *stubServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &stubServer{t: t, ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			sc := &stubConn{s: s, c: c, links: map[uint64]*stubLink{}}
			s.mu.Lock()
			sc.n = len(s.conns)
			s.conns = append(s.conns, sc)
			s.mu.Unlock()
			go sc.serve()
		}
	}()
	t.Cleanup(func() { ln.Close() })
	return s
}

func (s *stubServer) url() string { return "amqp://" + s.ln.Addr().String() }

func (s *stubServer) all() []*stubConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*stubConn(nil), s.conns...)
}

// openConns counts the connections the client has not let go of.
func (s *stubServer) openConns() int {
	n := 0
	for _, c := range s.all() {
		c.mu.Lock()
		if !c.gone {
			n++
		}
		c.mu.Unlock()
	}
	return n
}

func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return f()
}

type described struct {
	code byte
	v    any
}
type symbol string
type ulong uint64
type uint32v uint32
type ubyte byte

func enc(v any) []byte {
	switch x := v.(type) {
	case nil:
		return []byte{0x40}
	case bool:
		if x {
			return []byte{0x41}
		}
		return []byte{0x42}
	case ubyte:
		return []byte{0x50, byte(x)}
	case uint16:
		return []byte{0x60, byte(x >> 8), byte(x)}
	case uint32v:
		return binary.BigEndian.AppendUint32([]byte{0x70}, uint32(x))
	case ulong:
		return binary.BigEndian.AppendUint64([]byte{0x80}, uint64(x))
	case string:
		return append(binary.BigEndian.AppendUint32([]byte{0xb1}, uint32(len(x))), x...)
	case symbol:
		return append(binary.BigEndian.AppendUint32([]byte{0xb3}, uint32(len(x))), x...)
	case []byte:
		return append(binary.BigEndian.AppendUint32([]byte{0xb0}, uint32(len(x))), x...)
	case described:
		return append([]byte{0x00, 0x53, x.code}, enc(x.v)...)
	case []any:
		var b []byte
		for _, e := range x {
			b = append(b, enc(e)...)
		}
		h := binary.BigEndian.AppendUint32([]byte{0xd0}, uint32(len(b)+4))
		h = binary.BigEndian.AppendUint32(h, uint32(len(x)))
		return append(h, b...)
	}
	panic("enc")
}

func dec(b []byte) (any, []byte) {
	c := b[0]
	b = b[1:]
	u := func(n int) uint64 {
		var x uint64
		for i := 0; i < n; i++ {
			x = x<<8 | uint64(b[i])
		}
		b = b[n:]
		return x
	}
	switch c {
	case 0x00:
		code, r := dec(b)
		v, r := dec(r)
		n, _ := code.(uint64)
		return described{byte(n), v}, r
	case 0x40:
		return nil, b
	case 0x41:
		return true, b
	case 0x42:
		return false, b
	case 0x43, 0x44:
		return uint64(0), b
	case 0x50, 0x52, 0x53, 0x51, 0x54, 0x55, 0x56:
		return u(1), b
	case 0x60, 0x61:
		return u(2), b
	case 0x70, 0x71, 0x72:
		return u(4), b
	case 0x80, 0x81, 0x82, 0x83:
		return u(8), b
	case 0xa0, 0xa1, 0xa3:
		n := u(1)
		return string(b[:n]), b[n:]
	case 0xb0, 0xb1, 0xb3:
		n := u(4)
		return string(b[:n]), b[n:]
	case 0x45:
		return []any{}, b
	case 0xc0, 0xc1:
		size := u(1)
		end := b[size:]
		n := u(1)
		var l []any
		for i := uint64(0); i < n; i++ {
			var v any
			v, b = dec(b)
			l = append(l, v)
		}
		return l, end
	case 0xd0, 0xd1:
		size := u(4)
		end := b[size:]
		n := u(4)
		var l []any
		for i := uint64(0); i < n; i++ {
			var v any
			v, b = dec(b)
			l = append(l, v)
		}
		return l, end
	case 0xe0, 0xf0:
		var size uint64
		if c == 0xe0 {
			size = u(1)
		} else {
			size = u(4)
		}
		return nil, b[size:]
	}
	panic("dec")
}

func (c *stubConn) write(typ byte, ch uint16, body []byte) {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(body)+8))
	b = append(b, 2, typ, byte(ch>>8), byte(ch))
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.c.Write(append(b, body...))
}

func (c *stubConn) perf(ch uint16, code byte, fields ...any) {
	c.write(0, ch, enc(described{code, fields}))
}

// drop breaks the connection.
func (c *stubConn) drop() { c.c.Close() }

// deliver sends a message to every receiver link of an address.
func (c *stubConn) deliver(address string, body string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	ok := false
	for _, l := range c.links {
		if l.receiver && l.address == address && l.open && l.credit > 0 {
			l.credit--
			id := l.sent
			l.sent++
			p := enc(described{0x14, []any{uint32v(l.handle), uint32v(id), []byte{byte(id >> 8), byte(id)}, uint32v(0), false, false}})
			p = append(p, enc(described{0x75, []byte(body)})...)
			c.write(0, l.channel, p)
			ok = true
		}
	}
	return ok
}

func field(f []any, i int) any {
	if i < len(f) {
		return f[i]
	}
	return nil
}

func (c *stubConn) serve() {
	defer func() {
		recover()
		c.mu.Lock()
		c.gone = true
		c.mu.Unlock()
		c.c.Close()
	}()
	for {
		h := make([]byte, 8)
		if _, err := io.ReadFull(c.c, h); err != nil {
			return
		}
		if string(h[:4]) == "AMQP" {
			c.wmu.Lock()
			c.c.Write(h)
			c.wmu.Unlock()
			if h[4] == 3 {
				c.write(1, 0, enc(described{0x40, []any{symbol("EXTERNAL")}}))
			}
			continue
		}
		body := make([]byte, binary.BigEndian.Uint32(h)-8)
		if _, err := io.ReadFull(c.c, body); err != nil {
			return
		}
		ch := binary.BigEndian.Uint16(h[6:])
		if len(body) == 0 {
			continue
		}
		v, rest := dec(body)
		_ = rest
		d := v.(described)
		f, _ := d.v.([]any)
		if c.s.refuse != nil && c.s.refuse(c, d.code) {
			return
		}
		if c.s.hold != nil && c.s.hold(c, d.code) {
			continue
		}
		switch d.code {
		case 0x41: // sasl init
			c.mu.Lock()
			c.sasl = f
			c.mu.Unlock()
			c.write(1, 0, enc(described{0x44, []any{ubyte(0)}}))
		case 0x10: // open
			c.mu.Lock()
			c.open = f
			c.mu.Unlock()
			c.perf(0, 0x10, "stub", nil, uint32v(65536), uint16(255))
		case 0x11: // begin
			c.perf(ch, 0x11, ch, uint32v(0), uint32v(5000), uint32v(5000), uint32v(255))
		case 0x12: // attach
			l := &stubLink{name: f[0].(string), handle: f[1].(uint64), channel: ch, open: true}
			l.receiver, _ = f[2].(bool)
			src, tgt := field(f, 5), field(f, 6)
			x := tgt
			if l.receiver {
				x = src
			}
			if dd, ok := x.(described); ok {
				if ff, ok := dd.v.([]any); ok {
					l.address, _ = field(ff, 0).(string)
				}
			}
			c.mu.Lock()
			c.links[uint64(ch)<<32|l.handle] = l
			c.attached = append(c.attached, l)
			c.mu.Unlock()
			at := described{0x28, []any{l.address}}
			tt := described{0x29, []any{l.address}}
			var initial any
			if l.receiver {
				initial = uint32v(0)
			}
			c.perf(ch, 0x12, l.name, uint32v(l.handle), !l.receiver, nil, nil, at, tt, nil, nil, initial)
			if !l.receiver {
				c.perf(ch, 0x13, uint32v(0), uint32v(5000), uint32v(0), uint32v(5000), uint32v(l.handle), uint32v(0), uint32v(1000))
			}
		case 0x13: // flow
			if hd, ok := field(f, 4).(uint64); ok {
				c.mu.Lock()
				if l := c.links[uint64(ch)<<32|hd]; l != nil && l.receiver {
					l.credit, _ = field(f, 6).(uint64)
				}
				c.mu.Unlock()
			}
		case 0x14: // transfer
			id, _ := field(f, 1).(uint64)
			c.mu.Lock()
			c.transferred++
			c.mu.Unlock()
			if settled, _ := field(f, 4).(bool); !settled {
				c.perf(ch, 0x15, true, uint32v(id), uint32v(id), true, described{0x24, []any{}})
			}
		case 0x16: // detach
			hd, _ := field(f, 0).(uint64)
			c.mu.Lock()
			c.detached++
			if l := c.links[uint64(ch)<<32|hd]; l != nil {
				l.open = false
			}
			c.mu.Unlock()
			c.perf(ch, 0x16, uint32v(hd), true)
		case 0x17: // end
			c.perf(ch, 0x17)
		case 0x18: // close
			c.mu.Lock()
			c.closed = true
			c.mu.Unlock()
			c.perf(0, 0x18)
			return
		}
	}
}
