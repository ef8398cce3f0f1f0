package main

import (
	"bytes"
	"context"
	"crypto/rsa"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("T02", &check{run: runT02, minEvals: 600, minDistinct: 250,
		rule:        "an attacker on the wire (proxy and independent peers) alters, truncates, replays, reorders, transplants and forges messages in both directions; no forged write may reach the server's write handler, no altered response may be returned by the client; every frame of an encrypted channel is searched for the content that was sent; sequence numbers and tokens of every chunk are followed while the keys are renewed under load",
		assumptions: []string{"dropping or delaying messages is a denial of service the attacker is always capable of"}})
}

func securedModes() []polMode { return allModes()[1:] }

// t02Log records the values that reached the server's write handler.
type t02Log struct {
	mu   sync.Mutex
	seen map[string]int
}

func (l *t02Log) count(v string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.seen[v]
}

func (w *World) t02Node(name string) (*server.VariableNode, *t02Log) {
	n := w.addVar(VarSpec{Name: name, Value: "", DataType: ua.DataTypeIDString})
	l := &t02Log{seen: map[string]int{}}
	n.SetWriteValueHandler(func(_ *server.Session, v ua.WriteValue) (ua.DataValue, ua.StatusCode) {
		l.mu.Lock()
		l.seen[fmt.Sprint(v.Value.Value)]++
		l.mu.Unlock()
		return v.Value, ua.Good
	})
	return n, l
}

func marker(r *rand.Rand) string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, 24)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

func runT02(c *Ctx) {
	r := c.Rng("main")
	var wg sync.WaitGroup
	for _, f := range []func(*Ctx, *rand.Rand){t02Forge, t02Mitm, t02BadServer, t02RenewServer, t02RenewClient} {
		f := f
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() { defer wg.Done(); f(c, rr) }()
	}
	wg.Wait()
}

// t02Forge: crafted messages on the connection of a live session.
func t02Forge(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{})
	defer w.Srv.Close()
	attKey := rsaKey("k2")
	attCert := appCert("attacker", "urn:attacker", attKey).Raw
	kinds := []string{"flip", "flip", "flip", "flip-end", "flip-token", "flip-channel", "size", "trunc", "extend", "replay", "replay-mid", "swap", "chunk-swap", "chunk-drop", "otherkeys", "otherchannel", "zerokeys", "plain", "wrongtoken", "opn-none", "opn-none-renew", "opn-foreign", "opn-foreign-request", "opn-replay", "short", "seq-zero", "mac", "mac", "mac", "mac", "chunk-flip", "chunk-flip", "chunk-mac", "chunk-replace", "opn-mac", "opn-policy", "retype"}
	sem := make(chan struct{}, 24)
	var wg sync.WaitGroup
	for xi, x := range securedModes() {
		for ki, kind := range kinds {
			for rep := 0; rep < c.N(1, 6); rep++ {
				x, kind := x, kind
				rr := rand.New(rand.NewSource(r.Int63()))
				name := fmt.Sprintf("T02.%d.%d.%d", xi, ki, rep)
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					node, log := w.t02Node(name)
					v, err := w.RawSession(x.p, x.m)
					if err != nil {
						c.Violate("connect", "%v: %v", x, err)
						return
					}
					defer v.Close()
					v.Conn.SetDeadline(time.Now().Add(60 * time.Second))
					honest := map[string]bool{}
					tamper := func(b []byte) { b[rr.Intn(len(b))] ^= 1 << rr.Intn(8) }
					var sent [][]byte
					write := func(val string) []byte {
						return v.SealSym("MSGF", v.ChannelID, v.TokenID, v.NextSeq(), v.NextReq(), raw.MustEncode(prepped(v, writeReq(node.NodeID(), val))))
					}
					for i := 0; i < 1+rr.Intn(3); i++ {
						val := marker(rr)
						honest[val] = true
						f := write(val)
						sent = append(sent, f)
						v.Conn.Write(f)
						if _, _, err := v.Recv(); err != nil || log.count(val) != 1 {
							c.Violate("honest", "%v: an honest write failed: %v, handled %d times", x, err, log.count(val))
							return
						}
					}
					forged := marker(rr)
					limit := map[string]int{} // values and how often they may have been handled
					limit[forged] = 0
					var f []byte
					body := func() []byte { return raw.MustEncode(prepped(v, writeReq(node.NodeID(), forged))) }
					setSize := func(f []byte) []byte { binary.LittleEndian.PutUint32(f[4:], uint32(len(f))); return f }
					switch kind {
					case "flip":
						f = write(forged)
						i := rr.Intn(len(f) - 4)
						if i >= 4 {
							i += 4
						}
						f[i] ^= 1 << rr.Intn(8)
					case "flip-end":
						f = write(forged)
						f[len(f)-1-rr.Intn(40)] ^= 1 << rr.Intn(8)
					case "flip-token":
						f = write(forged)
						f[12+rr.Intn(4)] ^= 1 << rr.Intn(8)
					case "flip-channel":
						f = write(forged)
						f[8+rr.Intn(4)] ^= 1 << rr.Intn(8)
					case "size":
						f = write(forged)
						n := len(f) - 1 - rr.Intn(30)
						binary.LittleEndian.PutUint32(f[4:], uint32(n))
					case "trunc":
						f = write(forged)
						n := []int{1, 16, 32, x.p.SymSig, 48}[rr.Intn(5)]
						f = setSize(f[:len(f)-n])
					case "extend":
						f = write(forged)
						f = setSize(append(f, f[len(f)-16*(1+rr.Intn(2)):]...))
					case "replay", "replay-mid":
						f = sent[rr.Intn(len(sent))]
						if kind == "replay" {
							f = sent[len(sent)-1]
						}
						limit = map[string]int{}
						log.mu.Lock()
						for k := range log.seen {
							limit[k] = 1
						}
						log.mu.Unlock()
					case "swap":
						other := marker(rr)
						limit[other] = 0
						a := v.SealSym("MSGF", v.ChannelID, v.TokenID, v.NextSeq(), v.NextReq(), raw.MustEncode(prepped(v, writeReq(node.NodeID(), other))))
						f = append(write(forged), a...)
					case "mac":
						v.Tamper = tamper
						f = write(forged)
						v.Tamper = nil
					case "retype":
						f = write(forged)
						copy(f, []string{"MSGC", "CLOF", "OPNF", "MSGA", "ERRF"}[rr.Intn(5)])
					case "chunk-swap", "chunk-drop", "chunk-flip", "chunk-mac", "chunk-replace":
						if kind != "chunk-flip" && kind != "chunk-mac" {
							// the chunks in the middle hold only the text
							for len(forged) < 2400 {
								forged += marker(rr)
							}
							limit[forged] = 0
						}
						b := body()
						id := v.NextReq()
						n := len(b) / 4
						var fs [][]byte
						for i := 0; i < 4; i++ {
							t, e := "MSGC", (i+1)*n
							if i == 3 {
								t, e = "MSGF", len(b)
							}
							if kind == "chunk-mac" && i < 3 && (i == 2 || rr.Intn(3) == 0) {
								v.Tamper = tamper
							}
							fs = append(fs, v.SealSym(t, v.ChannelID, v.TokenID, v.NextSeq(), id, b[i*n:e]))
							v.Tamper = nil
						}
						if kind == "chunk-flip" {
							g := fs[rr.Intn(3)]
							// an alteration in the content: after the sequence header
							g[24+rr.Intn(n)] ^= 1 << rr.Intn(5)
						} else if kind == "chunk-mac" {
						} else if kind == "chunk-replace" {
							fs[2] = fs[1]
						} else if kind == "chunk-swap" {
							fs[1], fs[2] = fs[2], fs[1]
						} else {
							fs = append(fs[:1], fs[2:]...)
						}
						f = bytes.Join(fs, nil)
					case "otherkeys", "otherchannel":
						a, err := w.RawSession(x.p, x.m)
						if err != nil {
							c.Violate("connect", "%v: %v", x, err)
							return
						}
						defer a.Close()
						if kind == "otherkeys" {
							f = a.SealSymKeys(a.SendKeys(a.TokenID), "MSGF", v.ChannelID, v.TokenID, v.NextSeq(), v.NextReq(), body())
						} else {
							a.Seq = v.Seq
							f = a.SealSym("MSGF", a.ChannelID, a.TokenID, a.NextSeq(), a.NextReq(), raw.MustEncode(prepped(a, writeReq(node.NodeID(), forged))))
						}
					case "zerokeys":
						k := x.p.Derive(make([]byte, x.p.Nonce), make([]byte, x.p.Nonce))
						if rr.Intn(2) == 0 {
							k = x.p.Derive(nil, nil)
						}
						f = v.SealSymKeys(k, "MSGF", v.ChannelID, v.TokenID, v.NextSeq(), v.NextReq(), body())
					case "plain":
						pc := &raw.Chan{Policy: raw.None, Mode: raw.ModeNone}
						f = pc.SealSymKeys(nil, "MSGF", v.ChannelID, []uint32{v.TokenID, 0, v.TokenID + 1}[rr.Intn(3)], v.NextSeq(), v.NextReq(), body())
						if rr.Intn(2) == 0 { // with room for a signature
							f = setSize(append(f, make([]byte, x.p.SymSig)...))
						}
					case "wrongtoken":
						tok := v.TokenID + uint32(1+rr.Intn(3))
						f = v.SealSymKeys(v.SendKeys(v.TokenID), "MSGF", v.ChannelID, tok, v.NextSeq(), v.NextReq(), body())
					case "short":
						f = append([]byte("MSGF"), raw.U32(nil, 0, v.ChannelID, v.TokenID)...)
						f = setSize(append(f, make([]byte, rr.Intn(60))...))
					case "seq-zero":
						f = v.SealSym("MSGF", v.ChannelID, v.TokenID, 0, v.NextReq(), body())
					case "opn-none", "opn-none-renew":
						pc := &raw.Chan{Conn: v.Conn, Policy: raw.None, Mode: raw.ModeNone, ChannelID: v.ChannelID, Seq: v.Seq}
						if kind == "opn-none" {
							f, _ = pc.SealAsym(pc.NextSeq(), v.NextReq(), body())
						} else {
							v.Conn.SetDeadline(time.Now().Add(2 * time.Second))
							if _, err := pc.Open(true, 600000); err == nil {
								c.Violate("renew-none", "%v: the channel was renewed without security", x)
							}
							f = pc.SealSymKeys(nil, "MSGF", v.ChannelID, []uint32{pc.TokenID, v.TokenID + 1}[rr.Intn(2)], pc.NextSeq(), v.NextReq(), body())
						}
					case "opn-foreign", "opn-foreign-request":
						pc := &raw.Chan{Conn: v.Conn, Policy: x.p, Mode: x.m, ChannelID: v.ChannelID, Seq: v.Seq, LocalKey: attKey, LocalCert: attCert, RemoteCert: w.ServerCert}
						if kind == "opn-foreign-request" {
							f, _ = pc.SealAsym(pc.NextSeq(), v.NextReq(), body())
							break
						}
						v.Conn.SetDeadline(time.Now().Add(2 * time.Second))
						if _, err := pc.Open(true, 600000); err == nil {
							c.Violate("renew-foreign", "%v: the channel was renewed by another client", x)
							f = pc.SealSym("MSGF", v.ChannelID, pc.TokenID, pc.NextSeq(), v.NextReq(), body())
						} else {
							f = pc.SealSymKeys(x.p.Derive(make([]byte, x.p.Nonce), pc.NewNonce()), "MSGF", v.ChannelID, v.TokenID+1, pc.NextSeq(), v.NextReq(), body())
						}
					case "opn-mac", "opn-policy":
						// a renewal with a bad signature, or with another policy than the channel was opened with
						pc := &raw.Chan{Conn: v.Conn, Policy: x.p, Mode: x.m, ChannelID: v.ChannelID, Seq: v.Seq, LocalKey: w.ClientKey, LocalCert: w.ClientCert, RemoteCert: w.ServerCert}
						if kind == "opn-mac" {
							pc.Tamper = tamper
						} else {
							for pc.Policy == x.p {
								pc.Policy = securedModes()[rr.Intn(10)].p
							}
						}
						v.Conn.SetDeadline(time.Now().Add(2 * time.Second))
						_, err := pc.Open(true, 600000)
						if err == nil {
							c.Violate("renewed/"+kind, "%v: the channel was renewed (%s, %s)", x, kind, pc.Policy.URI)
						}
						pc.Tamper = nil
						k := pc.SendKeys(pc.TokenID)
						if k == nil {
							k = pc.Policy.Derive(make([]byte, pc.Policy.Nonce), pc.NewNonce())
						}
						f = pc.SealSymKeys(k, "MSGF", v.ChannelID, v.TokenID+1, pc.NextSeq(), v.NextReq(), body())
					case "opn-replay":
						// the client's own renewal, played twice
						b := raw.MustEncode(&ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1}, RequestType: ua.SecurityTokenRequestTypeRenew, SecurityMode: ua.MessageSecurityMode(x.m), ClientNonce: ua.ByteString(v.NewNonce()), RequestedLifetime: 600000})
						o, _ := v.SealAsym(v.NextSeq(), v.NextReq(), b)
						v.Conn.Write(o)
						if m, err := v.RecvMsg(); err != nil || m.Type != "OPN" {
							c.Violate("honest-renew", "%v: %v", x, err)
							return
						}
						v.Conn.Write(o)
						v.Conn.SetDeadline(time.Now().Add(3 * time.Second))
						if m, err := v.RecvMsg(); err == nil && m.Type == "OPN" {
							c.Violate("renew-replayed", "%v: a replayed renewal was answered", x)
						}
						c.Eval(fmt.Sprintf("forge/%v/%s", x, kind))
						return
					}
					v.Conn.Write(f)
					v.Conn.SetDeadline(time.Now().Add(400 * time.Millisecond))
					n := 0
					ended := false
					for {
						m, err := v.RecvMsg()
						if err != nil {
							if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
								ended = true
							}
							break
						}
						n++
						_ = m
					}
					for val, max := range limit {
						if k := log.count(val); k > max {
							c.Violate("acted/"+kind, "%v: a message (%s) was acted upon: the value was written %d times", x, kind, k-max)
						}
					}
					log.mu.Lock()
					for val := range log.seen {
						if _, ok := limit[val]; !ok && !honest[val] {
							c.Violate("acted/"+kind, "%v: an altered message (%s) was acted upon: %.40q was written", x, kind, val)
						}
					}
					log.mu.Unlock()
					if n > 0 {
						c.Violate("answered/"+kind, "%v: a message (%s) was answered %d times", x, kind, n)
					}
					if ended {
						c.Count("closed", 1)
					} else {
						c.Count("ignored", 1)
					}
					c.Eval(fmt.Sprintf("forge/%v/%s", x, kind))
				}()
			}
		}
	}
	wg.Wait()
}

// t02Mitm: an attacker between the client and the server, in both directions, and the content of encrypted frames.
func t02Mitm(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{})
	defer w.Srv.Close()
	kinds := []string{"flip", "flip", "trunc", "extend", "replay", "replay-old", "swap", "plain", "other", "token", "zero"}
	sem := make(chan struct{}, 24)
	var wg sync.WaitGroup
	for xi, x := range securedModes() {
		for ki, kind := range kinds {
			for dir := 0; dir < 2; dir++ {
				for rep := 0; rep < c.N(1, 5); rep++ {
					x, kind, dir := x, kind, dir
					rr := rand.New(rand.NewSource(r.Int63()))
					name := fmt.Sprintf("T02m.%d.%d.%d.%d", xi, ki, dir, rep)
					wg.Add(1)
					sem <- struct{}{}
					go func() {
						defer wg.Done()
						defer func() { <-sem }()
						t02MitmOne(c, w, x, kind, dir, name, rr)
					}()
				}
			}
		}
	}
	wg.Wait()
}

func t02MitmOne(c *Ctx, w *World, x polMode, kind string, dir int, name string, rr *rand.Rand) {
	node, log := w.t02Node(name)
	type rd struct {
		node *server.VariableNode
		val  string
	}
	var rds []rd
	for i := 0; i < 3; i++ {
		v := marker(rr)
		rds = append(rds, rd{w.addVar(VarSpec{Name: fmt.Sprintf("%s.%d", name, i), Value: v, DataType: ua.DataTypeIDString}), v})
	}
	px := newProxy(w.URL, rand.New(rand.NewSource(rr.Int63())))
	defer px.Close()
	var mu sync.Mutex
	var secrets []string
	armed := false
	attacked := false
	var held []byte
	frames := map[[2]int][][]byte{} // MSG frames by connection and direction
	var foreign []byte              // a frame of another channel of the same client
	leak := ""
	px.Frame = func(conn, d int, f []byte) []byte {
		mu.Lock()
		defer mu.Unlock()
		t := string(f[:3])
		if x.m == raw.ModeSignAndEncrypt && conn > 0 { // connection 0 is the discovery connection
			for _, s := range secrets {
				if bytes.Contains(f, []byte(s)) {
					leak = s
				}
			}
			c.Count("frames_searched", 1)
		}
		k := [2]int{conn, d}
		if t != "MSG" {
			return f
		}
		old := frames[k]
		frames[k] = append(old, append([]byte{}, f...))
		if !armed || d != dir {
			return f
		}
		armed, attacked = false, true
		if kind == "swap" {
			// held until the next frame
			held = f
			armed = true
			attacked = false
			if len(old) > 0 && string(old[len(old)-1]) == "held" {
				armed, attacked = false, true
			}
			frames[k] = append(frames[k], []byte("held"))
			if len(old) > 0 && string(old[len(old)-1]) == "held" {
				return append(append([]byte{}, f...), old[len(old)-2]...)
			}
			return nil
		}
		switch kind {
		case "flip":
			i := rr.Intn(len(f) - 4)
			if i >= 4 {
				i += 4
			}
			f[i] ^= 1 << rr.Intn(8)
		case "trunc":
			f = f[:len(f)-[]int{1, 16, x.p.SymSig, 48}[rr.Intn(4)]]
			binary.LittleEndian.PutUint32(f[4:], uint32(len(f)))
		case "extend":
			f = append(f, f[len(f)-16:]...)
			binary.LittleEndian.PutUint32(f[4:], uint32(len(f)))
		case "replay":
			f = append(append([]byte{}, f...), f...)
		case "replay-old":
			if len(old) > 0 {
				f = append(append([]byte{}, old[rr.Intn(len(old))]...), f...)
			}
		case "plain":
			seq := binary.LittleEndian.Uint32(f[16:])
			id := binary.LittleEndian.Uint32(f[20:])
			var v any
			if x.m == raw.ModeSign {
				v, _ = raw.Decode(f[24 : len(f)-x.p.SymSig])
			}
			pc := &raw.Chan{Policy: raw.None, Mode: raw.ModeNone}
			ch, tok := binary.LittleEndian.Uint32(f[8:]), binary.LittleEndian.Uint32(f[12:])
			var b []byte
			switch q := v.(type) {
			case *ua.WriteRequest:
				q.NodesToWrite[0].Value.Value = "forged" + name
				b = raw.MustEncode(q)
			case *ua.ReadResponse:
				q.Results[0].Value = "forged" + name
				b = raw.MustEncode(q)
			default:
				b = f[24:]
			}
			f = pc.SealSymKeys(nil, "MSGF", ch, tok, seq, id, b)
			if x.m == raw.ModeSign && rr.Intn(2) == 0 {
				f = append(f, make([]byte, x.p.SymSig)...)
				binary.LittleEndian.PutUint32(f[4:], uint32(len(f)))
			}
		case "other":
			if foreign != nil {
				f = append([]byte{}, foreign...)
				copy(f[8:16], frames[k][len(frames[k])-1][8:16]) // channel and token of this channel
			}
		case "token":
			f[12]++
		case "zero":
			for i := len(f) - x.p.SymSig; i < len(f); i++ {
				f[i] = 0
			}
		}
		return f
	}
	if kind == "other" {
		o, err := dialURL(w, px.URL, x.p, x.m)
		if err != nil {
			c.Violate("mitm-connect", "%v: %v", x, err)
			return
		}
		if dir == 0 {
			o.Write(bg(), writeReq(node.NodeID(), "foreign"+name))
		} else {
			o.Read(bg(), readReq(rds[1].node.NodeID()))
		}
		mu.Lock()
		for k, fs := range frames {
			if k[1] == dir && k[0] > 0 && len(fs) > 0 {
				foreign = fs[len(fs)-1]
			}
		}
		mu.Unlock()
		o.Abort(bg())
		log.mu.Lock()
		delete(log.seen, "foreign"+name)
		log.mu.Unlock()
	}
	pw := "password1"
	_ = pw
	cl, err := dialURL(w, px.URL, x.p, x.m)
	if err != nil {
		c.Violate("mitm-connect", "%v: %v", x, err)
		return
	}
	defer cl.Abort(bg())
	mu.Lock()
	for _, q := range rds {
		secrets = append(secrets, q.val, fmt.Sprintf("%s.%d", name, 0))
	}
	mu.Unlock()
	// honest traffic
	for i := 0; i < 2; i++ {
		v := marker(rr)
		mu.Lock()
		secrets = append(secrets, v)
		mu.Unlock()
		if _, err := cl.Write(bg(), writeReq(node.NodeID(), v)); err != nil || log.count(v) != 1 {
			c.Violate("mitm-honest", "%v: %v", x, err)
			return
		}
		q := rds[rr.Intn(3)]
		res, err := cl.Read(bg(), readReq(q.node.NodeID()))
		if err != nil || res.Results[0].Value != q.val {
			c.Violate("mitm-honest-read", "%v: %v", x, err)
			return
		}
	}
	mu.Lock()
	armed = true
	mu.Unlock()
	var ow sync.WaitGroup
	var acted int32
	written := []string{}
	for i := 0; i < 3; i++ {
		v := marker(rr)
		written = append(written, v)
		q := rds[i]
		ow.Add(1)
		go func() {
			defer ow.Done()
			ctx, cancel := context.WithTimeout(context.Background(), 700*time.Millisecond)
			defer cancel()
			if dir == 0 {
				cl.Write(ctx, writeReq(node.NodeID(), v))
				return
			}
			res, err := cl.Read(ctx, readReq(q.node.NodeID()))
			if err == nil && (len(res.Results) != 1 || res.Results[0].Value != q.val) {
				atomic.AddInt32(&acted, 1)
				c.Violate("mitm-response/"+kind, "%v: an altered response (%s) was returned: %v", x, kind, res.Results)
			}
		}()
		if kind != "swap" {
			time.Sleep(time.Duration(rr.Intn(3)) * time.Millisecond)
		}
	}
	ow.Wait()
	time.Sleep(20 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	_ = held
	if leak != "" {
		c.Violate("leak", "%v: content of a message was found on the wire", x)
	}
	if !attacked {
		c.Count("not_attacked", 1)
		return
	}
	if dir == 0 {
		ok := map[string]bool{}
		for _, v := range written {
			ok[v] = true
			if n := log.count(v); n > 1 {
				c.Violate("mitm-twice/"+kind, "%v: a write was handled %d times (%s)", x, n, kind)
			}
		}
		log.mu.Lock()
		for v, n := range log.seen {
			if n > 1 {
				c.Violate("mitm-twice/"+kind, "%v: a write was handled %d times (%s)", x, n, kind)
			}
			if len(v) != 24 {
				c.Violate("mitm-acted/"+kind, "%v: a forged value %.40q was written (%s)", x, v, kind)
			}
		}
		if kind == "swap" {
			n := 0
			for _, v := range written {
				n += log.seen[v]
			}
			if n > 0 {
				c.Violate("mitm-swap", "%v: %d writes that arrived out of order were acted upon", x, n)
			}
		}
		log.mu.Unlock()
	}
	c.Eval(fmt.Sprintf("mitm/%v/%s/%d", x, kind, dir))
}

// t02RenewServer: the keys are renewed while requests and notifications are on the way.
func t02RenewServer(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(1000)}})
	defer w.Srv.Close()
	var wg sync.WaitGroup
	for _, x := range allModes() {
		x := x
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl, err := w.RawSession(x.p, x.m)
			if err != nil {
				c.Violate("connect", "%v: %v", x, err)
				return
			}
			defer cl.Close()
			for i := 0; i < 12; i++ {
				if _, err := cl.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true}); err != nil {
					c.Violate("renew-setup", "%v: %v", x, err)
					return
				}
			}
			var mu sync.Mutex
			pend := map[uint32]string{} // request id -> expected value, or "publish"
			opn := make(chan []byte, 4)
			done := make(chan struct{})
			newest := cl.TokenID // newest token used for sending
			var lastSeq, lastTok uint32
			var publishes, answers int
			stop := false
			go func() {
				defer close(done)
				for {
					m, err := cl.RecvMsg()
					if err != nil {
						mu.Lock()
						if !stop {
							c.Violate("renew-broken", "%v: the channel broke while it was renewed: %v", x, err)
						}
						stop = true
						mu.Unlock()
						return
					}
					if m.Type == "OPN" {
						o, err := cl.OpenAsym(m.Frames[0])
						if err != nil {
							c.Violate("renew-opn", "%v: %v", x, err)
							return
						}
						if lastSeq != 0 && o.Seq != lastSeq+1 {
							c.Violate("renew-sequence", "%v: sequence number %d after %d", x, o.Seq, lastSeq)
						}
						lastSeq = o.Seq
						opn <- m.Frames[0]
						continue
					}
					for _, o := range m.Chunks {
						if lastSeq != 0 && o.Seq != lastSeq+1 {
							c.Violate("renew-sequence", "%v: sequence number %d after %d", x, o.Seq, lastSeq)
						}
						lastSeq = o.Seq
						mu.Lock()
						if o.Token > newest {
							c.Violate("renew-token", "%v: the server used token %d before the client did (%d)", x, o.Token, newest)
						}
						if o.Token < lastTok {
							c.Violate("renew-token-back", "%v: the server used token %d after %d", x, o.Token, lastTok)
						}
						mu.Unlock()
						lastTok = o.Token
					}
					v, err := raw.Decode(m.Body)
					if err != nil {
						c.Violate("renew-decode", "%v: %v", x, err)
						continue
					}
					mu.Lock()
					want, ok := pend[m.ReqID]
					delete(pend, m.ReqID)
					mu.Unlock()
					if !ok {
						c.Violate("renew-duplicate", "%v: a response to request %d, which is not outstanding", x, m.ReqID)
						continue
					}
					switch q := v.(type) {
					case *ua.ReadResponse:
						answers++
						if len(q.Results) != 1 || q.Results[0].StatusCode != ua.BadNodeIDUnknown && want != "state" {
							c.Violate("renew-answer", "%v: a read was answered by %v", x, q.Results)
						}
					case *ua.PublishResponse:
						publishes++
					default:
						c.Violate("renew-answer", "%v: answered by %T %v", x, v, v.(ua.ServiceResponse).Header().ServiceResult)
					}
				}
			}()
			send := func(q ua.ServiceRequest, want string) bool {
				cl.Prep(q)
				id := cl.NextReq()
				mu.Lock()
				pend[id] = want
				if cl.TokenID > newest {
					newest = cl.TokenID
				}
				s := stop
				mu.Unlock()
				if s {
					return false
				}
				return cl.SendMsg("MSG", id, raw.MustEncode(q)) == nil
			}
			renews := 0
			nonces := map[string]bool{}
			end := time.Now().Add(time.Duration(c.N(6, 40)) * time.Second)
			for i := 0; time.Now().Before(end); i++ {
				mu.Lock()
				np := 0
				for _, v := range pend {
					if v == "publish" {
						np++
					}
				}
				out := len(pend)
				mu.Unlock()
				if out > 60 {
					time.Sleep(time.Millisecond)
					continue
				}
				ok := true
				if np < 20 {
					ok = send(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 600000}}, "publish")
				} else if rr.Intn(4) > 0 {
					ok = send(readReq(ua.VariableIDServerServerStatusState), "state")
				} else {
					// renew; requests with the old token go on until the response is there
					nonce, err := cl.SendOpen(true, 600000)
					if err != nil {
						break
					}
					for k := rr.Intn(4); k > 0 && ok; k-- {
						ok = send(readReq(ua.VariableIDServerServerStatusState), "state")
					}
					select {
					case f := <-opn:
						// between the response and its use, the old token goes on as well
						oldTok := cl.TokenID
						if _, err := cl.FinishOpen(f, nonce); err != nil {
							c.Violate("renew-opn", "%v: %v", x, err)
							ok = false
							break
						}
						if n := string(cl.OpenNonce); x.p != raw.None {
							if nonces[n] || bytes.Count([]byte(n), []byte(n[:1])) == len(n) {
								c.Violate("server-nonce", "%v: server nonce %x (used before: %v)", x, n, nonces[n])
							}
							nonces[n] = true
						}
						newTok := cl.TokenID
						cl.TokenID = oldTok
						for k := rr.Intn(3); k > 0 && ok; k-- {
							ok = send(readReq(ua.VariableIDServerServerStatusState), "state")
						}
						if rr.Intn(2) == 0 {
							time.Sleep(time.Duration(rr.Intn(2000)) * time.Microsecond)
						}
						cl.TokenID = newTok
						ok = ok && send(readReq(ua.VariableIDServerServerStatusState), "state")
						renews++
					case <-time.After(20 * time.Second):
						c.Violate("renew-unanswered", "%v: a renewal was not answered", x)
						ok = false
					case <-done:
						ok = false
					}
				}
				if !ok {
					break
				}
			}
			// everything is answered
			lim := time.Now().Add(20 * time.Second)
			for {
				mu.Lock()
				n := 0
				for _, v := range pend {
					if v != "publish" {
						n++
					}
				}
				s := stop
				mu.Unlock()
				if n == 0 || s {
					break
				}
				if time.Now().After(lim) {
					c.Violate("renew-lost", "%v: %d requests are unanswered after %d renewals", x, n, renews)
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			mu.Lock()
			stop = true
			mu.Unlock()
			cl.Close()
			<-done
			if renews < 5 {
				c.Inconclusive("%v: only %d renewals", x, renews)
			}
			c.Count("server_renewals", renews)
			c.Count("answers_during_renewal", answers)
			c.Count("publishes_during_renewal", publishes)
			for i := 0; i < renews; i++ {
				c.Eval(fmt.Sprintf("renew-server/%v/%d", x, i%20))
			}
		}()
	}
	wg.Wait()
}

// t02RenewClient: the client renews against a scripted server that follows tokens and sequence numbers.
func t02RenewClient(c *Ctx, r *rand.Rand) {
	key := rsaKey("k0")
	cert := appCert("server", serverURI, key).Raw
	w := &World{C: c, ClientKey: rsaKey("k1"), ClientCert: appCert("client", clientURI, rsaKey("k1")).Raw}
	var wg sync.WaitGroup
	for _, x := range allModes() {
		x := x
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			s, err := raw.NewServer(key, cert)
			must(err)
			defer s.Close()
			s.Lifetime = uint32(20 + rr.Intn(60))
			var renews int32
			type tr struct {
				seq, tok uint32
				toks     []uint32
			}
			var mu sync.Mutex
			trs := map[*raw.ServerConn]*tr{}
			get := func(sc *raw.ServerConn) *tr {
				t := trs[sc]
				if t == nil {
					t = &tr{}
					trs[sc] = t
				}
				return t
			}
			s.OnOpen = func(sc *raw.ServerConn, o *raw.Opened, q *ua.OpenSecureChannelRequest, res *ua.OpenSecureChannelResponse) bool {
				mu.Lock()
				defer mu.Unlock()
				t := get(sc)
				if t.seq != 0 && o.Seq != t.seq+1 {
					c.Violate("client-sequence", "%v: sequence number %d after %d (renewal)", x, o.Seq, t.seq)
				}
				t.seq = o.Seq
				t.toks = append(t.toks, res.SecurityToken.TokenID)
				if len(t.toks) > 1 {
					atomic.AddInt32(&renews, 1)
					if q.RequestType != ua.SecurityTokenRequestTypeRenew {
						c.Violate("client-renew-type", "%v: request type %v on an open channel", x, q.RequestType)
					}
					if o.ChannelID != sc.ChannelID {
						c.Violate("client-renew-channel", "%v: renewal for channel %d on channel %d", x, o.ChannelID, sc.ChannelID)
					}
				}
				return false
			}
			s.OnRecv = func(sc *raw.ServerConn, m *raw.Msg) {
				mu.Lock()
				defer mu.Unlock()
				t := get(sc)
				for _, o := range m.Chunks {
					if t.seq != 0 && o.Seq != t.seq+1 {
						c.Violate("client-sequence", "%v: sequence number %d after %d", x, o.Seq, t.seq)
					}
					t.seq = o.Seq
					idx, last := -1, -1
					for i, k := range t.toks {
						if k == o.Token {
							idx = i
						}
						if k == t.tok {
							last = i
						}
					}
					if idx < 0 || idx < last {
						c.Violate("client-token", "%v: token %d after %d (issued %v)", x, o.Token, t.tok, t.toks)
					}
					t.tok = o.Token
				}
			}
			lag := rand.New(rand.NewSource(rr.Int63()))
			var lagMu sync.Mutex
			s.OnMsg = func(sc *raw.ServerConn, m *raw.Msg, q ua.ServiceRequest) bool {
				rq, ok := q.(*ua.ReadRequest)
				if !ok || len(rq.NodesToRead) != 1 {
					return false
				}
				lagMu.Lock()
				d := time.Duration(lag.Intn(8)) * time.Millisecond
				if lag.Intn(10) == 0 {
					d = time.Duration(lag.Intn(150)) * time.Millisecond
				}
				lagMu.Unlock()
				go func() {
					time.Sleep(d)
					sc.Reply(m, &ua.ReadResponse{ResponseHeader: raw.Header(rq), Results: []ua.DataValue{ua.NewDataValue("v:"+fmt.Sprint(rq.NodesToRead[0].NodeID), 0, time.Time{}, 0, time.Time{}, 0)}})
				}()
				return true
			}
			go s.Serve()
			cl, err := dialURL(w, s.URL, x.p, x.m, client.WithTransportLimits(16384, 1<<20, 100))
			if err != nil {
				c.Violate("client-renew-connect", "%v: %v", x, err)
				return
			}
			defer cl.Abort(bg())
			end := time.Now().Add(time.Duration(c.N(6, 40)) * time.Second)
			var cw sync.WaitGroup
			var n int32
			for g := 0; g < 6; g++ {
				g := g
				gr := rand.New(rand.NewSource(rr.Int63()))
				cw.Add(1)
				go func() {
					defer cw.Done()
					for i := 0; time.Now().Before(end); i++ {
						id := ua.NewNodeIDString(1, fmt.Sprintf("%d.%d.%s", g, i, string(make([]byte, gr.Intn(2)*gr.Intn(20000)))))
						res, err := cl.Read(bg(), readReq(id))
						if err != nil || len(res.Results) != 1 || res.Results[0].Value != "v:"+fmt.Sprint(id) {
							c.Violate("client-renew-request", "%v: a request failed while the keys were renewed (lifetime %d ms, %d renewals): %v", x, s.Lifetime, atomic.LoadInt32(&renews), err)
							return
						}
						atomic.AddInt32(&n, 1)
						if gr.Intn(6) == 0 {
							time.Sleep(time.Duration(gr.Intn(30)) * time.Millisecond)
						}
					}
				}()
			}
			cw.Wait()
			k := int(atomic.LoadInt32(&renews))
			c.Count("client_renewals", k)
			c.Count("client_requests", int(n))
			if k < 5 && !c.Violated() {
				c.Inconclusive("%v: the client renewed only %d times", x, k)
			}
			for i := 0; i < k; i++ {
				c.Eval(fmt.Sprintf("renew-client/%v/%d", x, i%20))
			}
		}()
	}
	wg.Wait()
}

var _ = (*rsa.PrivateKey)(nil)

// t02BadServer: a server that signs wrongly, against the library's client.
func t02BadServer(c *Ctx, r *rand.Rand) {
	key := rsaKey("k0")
	cert := appCert("server", serverURI, key).Raw
	w := &World{C: c, ClientKey: rsaKey("k1"), ClientCert: appCert("client", clientURI, rsaKey("k1")).Raw}
	kinds := []string{"good", "opn-sig", "opn-key", "renew-sig", "renew-key", "mac", "mac", "mac", "chunk-mac", "chunk-flip", "chunk-replace", "chunk-swap", "chunk-drop", "plain", "otherkeys"}
	sem := make(chan struct{}, 12)
	var wg sync.WaitGroup
	for _, x := range securedModes() {
		for _, kind := range kinds {
			for rep := 0; rep < c.N(1, 8); rep++ {
				x, kind := x, kind
				rr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					t02BadServerOne(c, w, key, cert, x, kind, rr)
					c.Eval(fmt.Sprintf("badserver/%v/%s", x, kind))
				}()
			}
		}
	}
	wg.Wait()
}

func t02BadServerOne(c *Ctx, w *World, key *rsa.PrivateKey, cert []byte, x polMode, kind string, rr *rand.Rand) {
	s, err := raw.NewServer(key, cert)
	must(err)
	defer s.Close()
	var rmu sync.Mutex
	tamper := func(b []byte) {
		rmu.Lock()
		defer rmu.Unlock()
		b[rr.Intn(len(b))] ^= 1 << rr.Intn(8)
	}
	if kind == "renew-sig" || kind == "renew-key" {
		s.Lifetime = 60
	}
	var connected atomic.Bool
	bad := map[uint32]bool{} // tokens issued with a wrong signature
	s.OnRecv = func(sc *raw.ServerConn, m *raw.Msg) {
		rmu.Lock()
		defer rmu.Unlock()
		for _, o := range m.Chunks {
			if m.Type == "MSG" && bad[o.Token] {
				c.Violate("accepted/"+kind, "%v: the client uses the keys of a renewal with a wrong signature", x)
			}
		}
	}
	nonces := map[string]bool{}
	s.OnOpen = func(sc *raw.ServerConn, o *raw.Opened, q *ua.OpenSecureChannelRequest, res *ua.OpenSecureChannelResponse) bool {
		if sc.Policy == raw.None {
			return false
		}
		rmu.Lock()
		n := string(q.ClientNonce)
		if len(n) != x.p.Nonce || nonces[n] || bytes.Count([]byte(n), []byte(n[:1])) == len(n) {
			c.Violate("client-nonce", "%v: client nonce %x (used before: %v)", x, n, nonces[n])
		}
		nonces[n] = true
		rmu.Unlock()
		first := sc.Opens == 1
		switch {
		case first && kind == "opn-sig", connected.Load() && kind == "renew-sig":
			sc.Tamper = tamper
		case first && kind == "opn-key", connected.Load() && kind == "renew-key":
			sc.LocalKey = rsaKey("k2")
		default:
			return false
		}
		rmu.Lock()
		bad[res.SecurityToken.TokenID] = true
		rmu.Unlock()
		sc.AnswerOpen(o, q, res)
		sc.Tamper, sc.LocalKey = nil, key
		return true
	}
	s.OnMsg = func(sc *raw.ServerConn, m *raw.Msg, q ua.ServiceRequest) bool {
		rq, ok := q.(*ua.ReadRequest)
		if !ok || len(rq.NodesToRead) != 1 || rq.NodesToRead[0].NodeID != ua.NodeID(ua.NewNodeIDString(1, "x")) {
			return false
		}
		b := raw.MustEncode(&ua.ReadResponse{ResponseHeader: raw.Header(rq), Results: []ua.DataValue{ua.NewDataValue("forgedforgedforgedforgedforgedforgedforgedforged", 0, time.Time{}, 0, time.Time{}, 0)}})
		var fs []byte
		switch kind {
		case "mac":
			sc.Tamper = tamper
			fs = sc.SealSym("MSGF", sc.ChannelID, sc.TokenID, sc.NextSeq(), m.ReqID, b)
			sc.Tamper = nil
		case "chunk-replace", "chunk-swap", "chunk-drop":
			// the chunks in the middle hold only the text
			val := ""
			for len(val) < 3000 {
				val += marker(rr)
			}
			b = raw.MustEncode(&ua.ReadResponse{ResponseHeader: raw.Header(rq), Results: []ua.DataValue{ua.NewDataValue(val, 0, time.Time{}, 0, time.Time{}, 0)}})
			var ch [][]byte
			n := len(b) / 5
			for i := 0; i < 5; i++ {
				t, e := "MSGC", (i+1)*n
				if i == 4 {
					t, e = "MSGF", len(b)
				}
				ch = append(ch, sc.SealSym(t, sc.ChannelID, sc.TokenID, sc.NextSeq(), m.ReqID, b[i*n:e]))
			}
			switch kind {
			case "chunk-replace":
				ch[2] = ch[1]
			case "chunk-swap":
				ch[1], ch[2] = ch[2], ch[1]
			case "chunk-drop":
				ch = append(ch[:1], ch[2:]...)
			}
			fs = bytes.Join(ch, nil)
		case "chunk-mac", "chunk-flip":
			n := len(b) / 3
			bad := rr.Intn(2)
			for i := 0; i < 3; i++ {
				t, e := "MSGC", (i+1)*n
				if i == 2 {
					t, e = "MSGF", len(b)
				}
				if i == bad && kind == "chunk-mac" {
					sc.Tamper = tamper
				}
				f := sc.SealSym(t, sc.ChannelID, sc.TokenID, sc.NextSeq(), m.ReqID, b[i*n:e])
				sc.Tamper = nil
				if i == bad && kind == "chunk-flip" {
					f[24+rr.Intn(n)] ^= 1
				}
				fs = append(fs, f...)
			}
		case "plain":
			pc := &raw.Chan{Policy: raw.None, Mode: raw.ModeNone}
			fs = pc.SealSymKeys(nil, "MSGF", sc.ChannelID, sc.TokenID, sc.NextSeq(), m.ReqID, b)
		case "otherkeys":
			fs = sc.SealSymKeys(x.p.Derive(make([]byte, x.p.Nonce), make([]byte, x.p.Nonce)), "MSGF", sc.ChannelID, sc.TokenID, sc.NextSeq(), m.ReqID, b)
		default:
			return sc.Reply(m, &ua.ReadResponse{ResponseHeader: raw.Header(rq), Results: []ua.DataValue{ua.NewDataValue("forgedforgedforgedforgedforgedforgedforgedforged", 0, time.Time{}, 0, time.Time{}, 0)}}) == nil
		}
		sc.Conn.Write(fs)
		return true
	}
	go s.Serve()
	cl, err := dialURL(w, s.URL, x.p, x.m)
	if kind == "opn-sig" || kind == "opn-key" {
		if err == nil {
			c.Violate("accepted/"+kind, "%v: the client connected although the signature of the response is wrong", x)
			cl.Abort(bg())
		}
		return
	}
	if err != nil {
		c.Violate("badserver-connect", "%v: %s: %v", x, kind, err)
		return
	}
	defer cl.Abort(bg())
	connected.Store(true)
	if s.Lifetime != 0 {
		time.Sleep(80 * time.Millisecond)
	}
	ctx, cancel := context.WithTimeout(bg(), 500*time.Millisecond)
	defer cancel()
	if kind == "good" {
		ctx = bg()
	}
	var res *ua.ReadResponse
	for i := 0; i < 2; i++ { // the second request would use the new token
		res, err = cl.Read(ctx, readReq(ua.NewNodeIDString(1, "x")))
		if kind == "good" {
			if err != nil {
				c.Violate("badserver-good", "%v: %v", x, err)
			}
			continue
		}
		if err == nil && s.Lifetime == 0 {
			c.Violate("accepted/"+kind, "%v: the client returned %v of a response that is not genuine (%s)", x, res.Results, kind)
		}
	}
}
