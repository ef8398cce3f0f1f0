package main

import (
	"encoding/binary"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"
)

// wireProxy sits between a client and a server, cuts the byte stream into arbitrary segments and shows every frame to a monitor.
type wireProxy struct {
	L      net.Listener
	URL    string
	target string
	rng    *rand.Rand
	mu     sync.Mutex
	// Frame sees each whole frame of a connection; dir 0 is client to server. What it returns is forwarded (nil: the frame is dropped).
	Frame func(conn, dir int, f []byte) []byte
	// Cut chooses segments; 0 forwards whole frames.
	Cut   int
	conns []net.Conn
	n     int
}

func newProxy(target string, r *rand.Rand) *wireProxy {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p := &wireProxy{L: l, URL: "opc.tcp://" + l.Addr().String(), target: strings.TrimPrefix(target, "opc.tcp://"), rng: r}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, err := net.Dial("tcp", p.target)
			if err != nil {
				c.Close()
				continue
			}
			p.mu.Lock()
			p.conns = append(p.conns, c, s)
			id := p.n
			p.n++
			r1, r2 := rand.New(rand.NewSource(p.rng.Int63())), rand.New(rand.NewSource(p.rng.Int63()))
			p.mu.Unlock()
			go p.pipe(id, 0, c, s, r1)
			go p.pipe(id, 1, s, c, r2)
		}
	}()
	return p
}

func (p *wireProxy) Close() {
	p.L.Close()
	p.Drop()
}

// Drop closes the connections so far.
func (p *wireProxy) Drop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, c := range p.conns {
		c.Close()
	}
	p.conns = nil
}

func (p *wireProxy) pipe(id, dir int, from, to net.Conn, r *rand.Rand) {
	defer from.Close()
	defer to.Close()
	var acc []byte
	buf := make([]byte, 65536)
	for {
		n, err := from.Read(buf)
		if n > 0 {
			acc = append(acc, buf[:n]...)
			for len(acc) >= 8 {
				l := int(binary.LittleEndian.Uint32(acc[4:]))
				if l < 8 || l > len(acc) {
					break
				}
				f := append([]byte{}, acc[:l]...)
				acc = acc[l:]
				if p.Frame != nil {
					f = p.Frame(id, dir, f)
				}
				if !segWrite(to, f, p.Cut, r) {
					return
				}
			}
		}
		if err != nil {
			return
		}
	}
}

// segWrite writes b in random segments of at most cut bytes (mostly), with occasional pauses.
func segWrite(c net.Conn, b []byte, cut int, r *rand.Rand) bool {
	for len(b) > 0 {
		n := len(b)
		if cut > 0 {
			m := 1 + r.Intn(cut)
			if r.Intn(4) == 0 {
				m = 1 + r.Intn(10)
			}
			if r.Intn(3) == 0 {
				m = n
			}
			if m < n {
				n = m
			}
		}
		if _, err := c.Write(b[:n]); err != nil {
			return false
		}
		b = b[n:]
		if cut > 0 && len(b) > 0 && r.Intn(8) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	return true
}
