package main

import (
	"crypto/rsa"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("T04", &check{run: runT04, minEvals: 2000, minDistinct: 200,
		rule:        "hostile peers send malformed bytes at every stage (before Hello, Hello, OPN, symmetric chunks with valid keys, service requests inside sessions), hold connections open, stop reading under load and reset connections, while well-behaved bystanders (read/write, subscription, diagnostics, new connections) check every answer they get; a crash of the server, an unanswered request or a disturbed bystander is a violation",
		assumptions: []string{"an answer within 40 s counts as served: the bystanders only detect a service that has stopped"}})
}

const t04Limit = 40 * time.Second

type t04 struct {
	c     *Ctx
	w     *World
	stop  atomic.Bool
	nodes []ua.NodeID // nodes the attackers may address
	big   ua.NodeID
	fast  ua.NodeID
	reqs  []reflect.Type
}

func (a *t04) done() bool { return a.stop.Load() || a.c.Violated() }

func runT04(c *Ctx) {
	r := c.Rng("main")
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(100000), server.WithMaxSessionCount(100000), bigCaps(), server.WithHistorian(&recHistorian{})}})
	a := &t04{c: c, w: w}
	for i := 0; i < 6; i++ {
		n := w.addVar(VarSpec{Name: fmt.Sprintf("attack.%d", i), Value: []any{int32(1), "text", []float64{1, 2, 3}, [][]int32{{1, 2}, {3, 4}}, ua.ByteString("abc"), time.Now()}[i]})
		a.nodes = append(a.nodes, n.NodeID())
	}
	a.big = w.addVar(VarSpec{Name: "attack.big", Value: ua.ByteString(strings.Repeat("x", 1<<20)), DataType: ua.DataTypeIDByteString}).NodeID()
	fast := w.addVar(VarSpec{Name: "attack.fast", Value: ua.ByteString(strings.Repeat("x", 60000)), DataType: ua.DataTypeIDByteString})
	a.fast = fast.NodeID()
	a.nodes = append(a.nodes, a.big, a.fast, ua.ObjectIDServer, ua.ObjectIDObjectsFolder, ua.VariableIDServerServerStatus, ua.VariableIDServerServerArray, ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData, ua.ObjectTypeIDBaseEventType, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionDiagnosticsArray, ua.ReferenceTypeIDOrganizes, ua.DataTypeIDRange)
	for _, t := range registeredTypes() {
		if strings.HasSuffix(t.Typ.Name(), "Request") {
			if _, ok := reflect.New(t.Typ).Interface().(ua.ServiceRequest); ok {
				a.reqs = append(a.reqs, t.Typ)
			}
		}
	}
	if len(a.reqs) < 25 {
		c.Inconclusive("only %d kinds of requests", len(a.reqs))
	}
	if len(embeddable) == 0 {
		embeddable = registeredTypes()
	}
	var by, at sync.WaitGroup
	var stopBy atomic.Bool
	for i, f := range []func(*rand.Rand, *atomic.Bool){a.byReadWrite, a.byReadWriteSecure, a.bySubscriber, a.byDiagnostics, a.byConnect} {
		i, f := i, f
		rr := rand.New(rand.NewSource(r.Int63()))
		by.Add(1)
		go func() { defer by.Done(); _ = i; f(rr, &stopBy) }()
	}
	go func() {
		for k := 0; !stopBy.Load(); k++ {
			fast.SetValue(ua.NewDataValue(ua.ByteString(strings.Repeat(string(rune('a'+k%26)), 60000)), 0, time.Now(), 0, time.Now(), 0))
			time.Sleep(20 * time.Millisecond)
		}
	}()
	time.Sleep(300 * time.Millisecond)
	attack := func(n int, f func(*rand.Rand)) {
		for i := 0; i < n; i++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			at.Add(1)
			go func() {
				defer at.Done()
				for !a.done() {
					f(rr)
				}
			}()
		}
	}
	attack(3, a.bytesAttack)
	attack(2, a.openAttack)
	attack(2, a.chunkAttack)
	attack(4, a.requestAttack)
	attack(2, a.resetAttack)
	for i := 0; i < 6; i++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		at.Add(1)
		go func() { defer at.Done(); a.nonReader(rr) }()
	}
	at.Add(2)
	go func() { defer at.Done(); a.loris() }()
	fr := rand.New(rand.NewSource(r.Int63()))
	go func() { defer at.Done(); a.flood(fr) }()
	time.Sleep(time.Duration(c.N(25, 600)) * time.Second)
	a.stop.Store(true)
	if !within(120*time.Second, at.Wait) {
		c.Violate("attack-end", "a connection of an attacker is neither answered nor closed")
	}
	time.Sleep(time.Second)
	stopBy.Store(true)
	if !within(120*time.Second, by.Wait) {
		c.Violate("bystander-end", "a bystander is still waiting for an answer")
	}
	if !c.Violated() {
		a.exhaust()
	}
	if !within(60*time.Second, func() { w.Srv.Close() }) {
		c.Violate("close", "the server does not close after the attack")
	}
}

// bystanders

func (a *t04) rw(cl *raw.Client, node *server.VariableNode, rr *rand.Rand, stop *atomic.Bool, who string) {
	cl.Timeout = t04Limit
	n := 0
	for !stop.Load() {
		v := marker(rr)
		t := time.Now()
		res, err := cl.Do(writeReq(node.NodeID(), v))
		if err != nil || res.(*ua.WriteResponse).Results[0] != ua.Good {
			a.c.Violate("bystander-write/"+who, "a write failed after %v: %v", time.Since(t), err)
			return
		}
		t = time.Now()
		rd, err := cl.Do(readReq(node.NodeID()))
		if err != nil || len(rd.(*ua.ReadResponse).Results) != 1 || rd.(*ua.ReadResponse).Results[0].Value != v {
			a.c.Violate("bystander-read/"+who, "a read failed or returned another value after %v: %v", time.Since(t), err)
			return
		}
		n++
		time.Sleep(2 * time.Millisecond)
	}
	a.c.Count("bystander_"+who, n)
	if n < 20 {
		a.c.Inconclusive("bystander %s made only %d rounds", who, n)
	}
}

func (a *t04) byReadWrite(rr *rand.Rand, stop *atomic.Bool) {
	node := a.w.addVar(VarSpec{Name: "bystander-" + marker(rr), Value: "", DataType: ua.DataTypeIDString})
	cl, err := a.w.RawSession(raw.None, raw.ModeNone)
	must(err)
	defer cl.Close()
	a.rw(cl, node, rr, stop, "plain")
}

func (a *t04) byReadWriteSecure(rr *rand.Rand, stop *atomic.Bool) {
	node := a.w.addVar(VarSpec{Name: "bystander-" + marker(rr), Value: "", DataType: ua.DataTypeIDString})
	cl, err := a.w.RawSession(raw.Basic256Sha256, raw.ModeSignAndEncrypt)
	must(err)
	defer cl.Close()
	a.rw(cl, node, rr, stop, "secure")
}

func (a *t04) bySubscriber(rr *rand.Rand, stop *atomic.Bool) {
	node := a.w.addVar(VarSpec{Name: "bystander-" + marker(rr), Value: "", DataType: ua.DataTypeIDString})
	ac := a.w.ACUser("user1")
	defer ac.Close()
	sub := ac.createSub(125, 3000, 10, 0, true, 0)
	ac.createItems(sub.SubscriptionID, ua.TimestampsToReturnBoth, valueItem(node.NodeID(), 1, 50, 100, true, nil))
	p := newPublisher(ac, 4)
	p.pump()
	defer p.Stop()
	n := 0
	for !stop.Load() {
		v := marker(rr)
		node.SetValue(ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0))
		t := time.Now()
		for seen := false; !seen; {
			ms := p.Msgs()
			for i := len(ms) - 1; i >= 0 && i > len(ms)-200 && !seen; i-- {
				for _, d := range dataOf(ms[i]) {
					if d.Value.Value == v {
						seen = true
					}
				}
			}
			if time.Since(t) > t04Limit {
				a.c.Violate("bystander-subscription", "a change was not reported within %v (%d before)", t04Limit, n)
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
		n++
	}
	a.c.Count("bystander_notifications", n)
}

func (a *t04) byDiagnostics(rr *rand.Rand, stop *atomic.Bool) {
	cl, err := a.w.RawUser(raw.Basic256Sha256, raw.ModeSignAndEncrypt, "user1", "password1")
	must(err)
	defer cl.Close()
	cl.Timeout = t04Limit
	n := 0
	for !stop.Load() {
		t := time.Now()
		_, err := cl.Do(readReq([]ua.NodeID{ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary, ua.VariableIDServerServerStatus}[rr.Intn(4)]))
		// a response that is too large for the client is refused
		if err != nil && err != error(ua.BadResponseTooLarge) {
			a.c.Violate("bystander-diagnostics", "reading diagnostics failed after %v: %v", time.Since(t), err)
			return
		}
		br, err := cl.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServer, IncludeSubtypes: true, ResultMask: 63}}})
		if err != nil || len(br.(*ua.BrowseResponse).Results) != 1 || len(br.(*ua.BrowseResponse).Results[0].References) == 0 {
			a.c.Violate("bystander-browse", "browsing failed: %v", err)
			return
		}
		n++
		time.Sleep(5 * time.Millisecond)
	}
	a.c.Count("bystander_diagnostics", n)
}

func (a *t04) byConnect(rr *rand.Rand, stop *atomic.Bool) {
	n := 0
	for !stop.Load() {
		x := allModes()[rr.Intn(len(allModes()))]
		t := time.Now()
		cl, err := a.w.Dial(x.p, x.m)
		if err != nil {
			a.c.Violate("bystander-connect", "%v: connecting failed after %v: %v", x, time.Since(t), err)
			return
		}
		if _, err := cl.Read(bg(), readReq(ua.VariableIDServerServerStatusState)); err != nil {
			a.c.Violate("bystander-connect-read", "%v: %v", x, err)
			return
		}
		if err := cl.Close(bg()); err != nil {
			a.c.Violate("bystander-close", "%v: %v", x, err)
			return
		}
		n++
	}
	a.c.Count("bystander_connects", n)
}

// attackers

func mutate(rr *rand.Rand, b []byte, from int) []byte {
	b = append([]byte{}, b...)
	for k := 1 + rr.Intn(4); k > 0 && len(b) > from; k-- {
		i := from + rr.Intn(len(b)-from)
		switch rr.Intn(9) {
		case 0, 1:
			b[i] ^= 1 << rr.Intn(8)
		case 2:
			b[i] = byte(rr.Intn(256))
		case 3:
			b[i] = []byte{0, 0xff, 0x7f, 0x80}[rr.Intn(4)]
		case 4:
			if i+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[i:], []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(b)), uint32(len(b) * 2), 65536, 1 << 24}[rr.Intn(9)])
			}
		case 5:
			n := rr.Intn(len(b) - i)
			b = append(b[:i], b[i+n:]...)
		case 6:
			n := rr.Intn(len(b) - i)
			b = append(b[:i+n:i+n], append(append([]byte{}, b[i:i+n]...), b[i+n:]...)...)
		case 7:
			b = b[:i]
		case 8:
			x := make([]byte, rr.Intn(40))
			rr.Read(x)
			b = append(b[:i:i], append(x, b[i:]...)...)
		}
	}
	return b
}

func fixSize(b []byte) []byte {
	if len(b) >= 8 {
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
	}
	return b
}

func helFrame(rr *rand.Rand, url string) []byte {
	pick := func() uint32 {
		return []uint32{0, 1, 8191, 8192, 65536, 0x7fffffff, 0xffffffff, 1 << 28, uint32(rr.Intn(100000))}[rr.Intn(9)]
	}
	b := raw.U32(nil, []uint32{0, 1, 0xffffffff}[rr.Intn(3)])
	b = raw.U32(b, pick(), pick(), pick(), pick())
	return raw.Frame("HELF", raw.Str(b, []byte(url)))
}

// drain waits until the connection ends or something arrives; false after the limit.
func drain(conn net.Conn, d time.Duration) bool {
	conn.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	_, err := conn.Read(b)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return false
	}
	return true
}

// bytesAttack: bytes before a channel exists.
func (a *t04) bytesAttack(rr *rand.Rand) {
	conn, err := raw.DialTCP(a.w.URL, 10*time.Second)
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		return
	}
	defer conn.Close()
	kind := rr.Intn(10)
	var b []byte
	complete := false // a complete frame that must be answered or refused
	switch kind {
	case 0:
		b = make([]byte, rr.Intn(3000))
		rr.Read(b)
	case 1:
		b = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case 2:
		b = mutate(rr, helFrame(rr, a.w.URL), 0)
	case 3:
		b = helFrame(rr, strings.Repeat("x", []int{0, 1, 4095, 4096, 4097, 8150, 60000}[rr.Intn(7)]))
		complete = true
	case 4:
		b = append([]byte([]string{"HELF", "OPNF", "MSGF", "CLOF", "ACKF", "ERRF", "MSGC", "HELC", "\x00\x00\x00\x00"}[rr.Intn(9)]), raw.U32(nil, []uint32{0, 1, 7, 8, 9, 0x80000000, 0xffffffff, 65536, 65537, 28}[rr.Intn(10)])...)
		x := make([]byte, rr.Intn(70000)*rr.Intn(2))
		rr.Read(x)
		b = append(b, x...)
	case 5:
		pc := &raw.Chan{Policy: raw.None, Mode: raw.ModeNone}
		b = pc.SealSymKeys(nil, "MSGF", 0, 0, 1, 1, raw.MustEncode(readReq(ua.ObjectIDServer)))
		complete = true
	case 6:
		b = helFrame(rr, a.w.URL)
		b = append(b, helFrame(rr, a.w.URL)...)
		complete = true
	case 7:
		h := helFrame(rr, a.w.URL)
		b = fixSize(mutate(rr, h, 8))
		complete = true
	case 8:
		b = helFrame(rr, a.w.URL)[:rr.Intn(32)]
	case 9:
		b = append(raw.Frame("HELF", raw.Str(raw.U32(nil, 0, 65536, 65536, 0, 0), []byte(a.w.URL))), raw.Frame([]string{"MSGF", "CLOF", "ERRF", "XXXF", "OPNC", "OPNA"}[rr.Intn(6)], make([]byte, rr.Intn(100)))...)
		complete = true
	}
	if rr.Intn(3) == 0 && len(b) > 0 {
		segWrite(conn, b, 1+rr.Intn(len(b)), rr)
	} else {
		conn.Write(b)
	}
	if complete {
		if !drain(conn, t04Limit) {
			a.c.Violate("silent/bytes", "a malformed message (kind %d) was neither answered nor the connection closed", kind)
		}
	} else if rr.Intn(2) == 0 {
		drain(conn, 50*time.Millisecond)
	}
	a.c.Eval(fmt.Sprintf("bytes/%d/%d", kind, len(b)/500))
}

// openAttack: malformed OpenSecureChannel messages.
func (a *t04) openAttack(rr *rand.Rand) {
	conn, err := raw.DialTCP(a.w.URL, 10*time.Second)
	if err != nil {
		return
	}
	defer conn.Close()
	x := allModes()[rr.Intn(len(allModes()))]
	ch := &raw.Chan{Conn: conn, Policy: x.p, Mode: x.m, LocalKey: a.w.ClientKey, LocalCert: a.w.ClientCert, RemoteCert: a.w.ServerCert}
	conn.SetDeadline(time.Now().Add(t04Limit))
	kind := rr.Intn(14)
	if kind == 13 { // buffers too small for anything
		sz := func() uint32 {
			return []uint32{0, 1, 7, 8, 24, 31, 32, 100, 1000, 4096, 8191, 65536}[rr.Intn(12)]
		}
		r, s := sz(), sz()
		err := ch.Hello(a.w.URL, r, s, uint32(rr.Intn(2)*100), uint32(rr.Intn(2)))
		a.c.Eval(fmt.Sprintf("smallbuf/%d/%d", r, s))
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				a.c.Violate("silent/hello", "%v: a hello with buffers of %d and %d bytes was neither answered nor the connection closed", x, r, s)
			}
			return
		}
	} else if err := ch.Hello(a.w.URL, 65536, 65536, 0, 0); err != nil {
		a.c.Violate("hello", "a proper hello failed: %v", err)
		return
	}
	req := &ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1}, SecurityMode: ua.MessageSecurityMode(x.m), ClientNonce: ua.ByteString(ch.NewNonce()), RequestedLifetime: 600000}
	var f []byte
	body := raw.MustEncode(req)
	switch kind {
	case 0: // altered frame
		f, _ = ch.SealAsym(1, 1, body)
		f = fixSize(mutate(rr, f, 8))
	case 1: // altered body, properly signed
		f, _ = ch.SealAsym(1, 1, mutate(rr, body, 0))
	case 2: // another message in the envelope
		f, _ = ch.SealAsym(1, 1, raw.MustEncode(readReq(ua.ObjectIDServer)))
	case 3: // strange fields
		req.RequestType = ua.SecurityTokenRequestType(rr.Intn(4) - 1)
		req.SecurityMode = ua.MessageSecurityMode(rr.Intn(7) - 1)
		req.ClientNonce = ua.ByteString(make([]byte, []int{0, 1, 15, 16, 31, 32, 33, 1000}[rr.Intn(8)]))
		req.RequestedLifetime = []uint32{0, 1, 0xffffffff}[rr.Intn(3)]
		f, _ = ch.SealAsym(1, 1, raw.MustEncode(req))
	case 4: // garbage certificate
		ch.LocalCert = mutate(rr, a.w.ClientCert, 0)
		f, _ = ch.SealAsym(1, 1, body)
	case 5: // certificate without an RSA key
		ec, _ := ecCert("ec", "urn:ec")
		ch.LocalCert = ec.Raw
		f, _ = ch.SealAsym(1, 1, body)
	case 6: // keys of unusual size
		k := []string{"k1024", "k3072", "k4096", "kshort"}[rr.Intn(4)]
		ch.LocalKey = rsaKey(k)
		ch.LocalCert = appCert("odd", "urn:odd", rsaKey(k)).Raw
		f, _ = ch.SealAsym(1, 1, body)
	case 7: // policy name
		p := *x.p
		p.URI = []string{"", "http://opcfoundation.org/UA/SecurityPolicy#", "http://opcfoundation.org/UA/SecurityPolicy#Basic256Sha257", strings.Repeat("x", 10000), "\xff\xfe"}[rr.Intn(5)]
		ch.Policy = &p
		if x.p == raw.None {
			f = raw.Frame("OPNF", append(raw.Str(raw.Str(raw.Str(raw.U32(nil, 0), []byte(p.URI)), nil), nil), append(raw.U32(nil, 1, 1), body...)...))
		} else {
			f, _ = ch.SealAsym(1, 1, body)
		}
	case 8: // None policy, with certificate fields
		f = raw.Frame("OPNF", append(raw.Str(raw.Str(raw.Str(raw.U32(nil, 0), []byte(raw.None.URI)), a.w.ClientCert), make([]byte, rr.Intn(30))), append(raw.U32(nil, 1, 1), body...)...))
	case 9: // many chunks without a final one
		for i := 0; i < 40; i++ {
			g := raw.Frame("OPNC", append(raw.Str(raw.Str(raw.Str(raw.U32(nil, 0), []byte(raw.None.URI)), nil), nil), append(raw.U32(nil, uint32(i+1), 1), body[:10]...)...))
			f = append(f, g...)
		}
	case 10: // short frames
		g, _ := ch.SealAsym(1, 1, body)
		f = fixSize(g[:8+rr.Intn(len(g)-8)])
	case 11: // ciphertext of odd size
		g, _ := ch.SealAsym(1, 1, body)
		f = fixSize(append(g, make([]byte, 1+rr.Intn(600))...))
	case 12: // padding that is not, properly signed
		ch.Plain = func(p []byte) {
			for i := len(p) - 1 - rr.Intn(3); i < len(p); i++ {
				p[i] = []byte{0, 1, 127, 254, 255}[rr.Intn(5)]
			}
		}
		if rr.Intn(2) == 0 {
			body = body[:rr.Intn(60)]
		}
		f, _ = ch.SealAsym(1, 1, body)
	case 13: // a proper message
		f, _ = ch.SealAsym(1, 1, body)
	}
	if f == nil {
		return
	}
	conn.Write(f)
	if !drain(conn, t04Limit) {
		a.c.Violate("silent/open", "%v: a malformed OpenSecureChannel (kind %d) was neither answered nor the connection closed", x, kind)
	}
	a.c.Eval(fmt.Sprintf("open/%v/%d", x, kind))
}

// chunkAttack: chunks on an open channel, with its keys.
func (a *t04) chunkAttack(rr *rand.Rand) {
	x := allModes()[rr.Intn(len(allModes()))]
	cl, err := a.w.RawSession(x.p, x.m, func(cf *raw.Config) { cf.Timeout = t04Limit })
	if err != nil {
		a.c.Violate("attacker-session", "%v: a proper session was refused: %v", x, err)
		return
	}
	defer cl.Close()
	for i := 0; i < 3; i++ {
		kind := rr.Intn(10)
		body := raw.MustEncode(prepped(cl, readReq(a.nodes[rr.Intn(len(a.nodes))])))
		k := cl.SendKeys(cl.TokenID)
		h := raw.U32(nil, cl.ChannelID, cl.TokenID)
		var f []byte
		expect := true
		switch kind {
		case 0: // padding that is not
			plain := append(raw.U32(nil, cl.NextSeq(), cl.NextReq()), body...)
			for (len(plain)+x.p.SymSig)%16 != 0 {
				plain = append(plain, byte(rr.Intn(256)))
			}
			plain[len(plain)-1] = byte(rr.Intn(256))
			if x.m == raw.ModeNone {
				continue
			}
			f = cl.FinishSym(k, "MSGF", h, plain)
		case 1: // nearly nothing inside
			plain := make([]byte, rr.Intn(40))
			for x.m == raw.ModeSignAndEncrypt && (len(plain)+x.p.SymSig)%16 != 0 {
				plain = append(plain, 255)
			}
			if x.m == raw.ModeNone {
				f = raw.Frame("MSGF", append(h, plain...))
			} else {
				f = cl.FinishSym(k, "MSGF", h, plain)
			}
		case 2: // chunks without end
			id := cl.NextReq()
			for j := 0; j < 1+rr.Intn(300); j++ {
				f = append(f, cl.SealSym("MSGC", cl.ChannelID, cl.TokenID, cl.NextSeq(), id, make([]byte, rr.Intn(50)))...)
			}
			expect = false
		case 3: // abort
			id := cl.NextReq()
			f = append(f, cl.SealSym("MSGC", cl.ChannelID, cl.TokenID, cl.NextSeq(), id, body[:10])...)
			f = append(f, cl.SealSym("MSGA", cl.ChannelID, cl.TokenID, cl.NextSeq(), id, append(raw.U32(nil, uint32(ua.BadRequestTooLarge)), raw.Str(nil, []byte("x"))...))...)
			expect = false
		case 4: // empty chunks
			id := cl.NextReq()
			for j := 0; j < 5; j++ {
				f = append(f, cl.SealSym("MSGC", cl.ChannelID, cl.TokenID, cl.NextSeq(), id, nil)...)
			}
			f = append(f, cl.SealSym("MSGF", cl.ChannelID, cl.TokenID, cl.NextSeq(), id, body)...)
		case 5: // no body at all
			f = cl.SealSym("MSGF", cl.ChannelID, cl.TokenID, cl.NextSeq(), cl.NextReq(), nil)
		case 6: // other message types
			f = cl.SealSym([]string{"HELF", "ACKF", "ERRF", "OPNF", "CLOC", "MSGX", "CLOF"}[rr.Intn(7)], cl.ChannelID, cl.TokenID, cl.NextSeq(), cl.NextReq(), body)
		case 7: // frame altered
			f = fixSize(mutate(rr, cl.SealSym("MSGF", cl.ChannelID, cl.TokenID, cl.NextSeq(), cl.NextReq(), body), 8))
		case 8: // sizes
			f = cl.SealSym("MSGF", cl.ChannelID, cl.TokenID, cl.NextSeq(), cl.NextReq(), body)
			binary.LittleEndian.PutUint32(f[4:], []uint32{0, 7, 8, 15, 16, 23, 24, 0x7fffffff, 0x80000000, 0xffffffff}[rr.Intn(10)])
		case 9: // an oversized chunk
			f = cl.SealSym("MSGF", cl.ChannelID, cl.TokenID, cl.NextSeq(), cl.NextReq(), append(body, make([]byte, 200000)...))
		}
		cl.Conn.SetWriteDeadline(time.Now().Add(t04Limit))
		cl.Conn.Write(f)
		a.c.Eval(fmt.Sprintf("chunk/%v/%d", x, kind))
		if !expect {
			if rr.Intn(2) == 0 {
				drain(cl.Conn, 20*time.Millisecond)
			}
			return
		}
		cl.Conn.SetReadDeadline(time.Now().Add(t04Limit))
		_, err := cl.RecvMsg()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			a.c.Violate("silent/chunk", "%v: a message (kind %d) was neither answered nor the connection closed", x, kind)
			return
		}
		if err != nil {
			return
		}
	}
}

// hostile puts identifiers of the attacker's own objects and odd values into a request.
func (a *t04) hostile(g *gen, v reflect.Value, name string, ids map[string][]uint32, dep int) {
	rr := g.r
	switch v.Type() {
	case tNodeID:
		if rr.Intn(4) > 0 {
			v.Set(reflect.ValueOf(a.nodes[rr.Intn(len(a.nodes))]))
		}
		return
	case tTime, tUUID, tExpanded, tDataValue, tDiag, tVariant:
		return
	case tExtObj:
		switch {
		case strings.Contains(name, "Filter") && rr.Intn(3) > 0:
			v.Set(reflect.ValueOf(a.filter(g)))
		case name == "HistoryReadDetails" && rr.Intn(4) > 0:
			t := []any{ua.ReadRawModifiedDetails{}, ua.ReadProcessedDetails{}, ua.ReadAtTimeDetails{}, ua.ReadEventDetails{}}[rr.Intn(4)]
			p := reflect.New(reflect.TypeOf(t)).Elem()
			g.fill(p, 2)
			v.Set(p)
		case name == "UserIdentityToken" && rr.Intn(4) > 0:
			t := []any{ua.AnonymousIdentityToken{}, ua.UserNameIdentityToken{}, ua.X509IdentityToken{}, ua.IssuedIdentityToken{}}[rr.Intn(4)]
			p := reflect.New(reflect.TypeOf(t)).Elem()
			g.fill(p, 2)
			v.Set(p)
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if q, ok := v.Addr().Interface().(*ua.CallMethodRequest); ok && rr.Intn(3) > 0 {
			q.ObjectID = ua.ObjectIDServer
			q.MethodID = []ua.NodeID{ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData, ua.MethodIDServerRequestServerStateChange, ua.MethodIDServerSetSubscriptionDurable}[rr.Intn(4)]
			q.InputArguments = nil
			for k := rr.Intn(4); k > 0; k-- {
				if l := ids["SubscriptionID"]; len(l) > 0 && rr.Intn(2) == 0 {
					q.InputArguments = append(q.InputArguments, l[rr.Intn(len(l))])
				} else {
					q.InputArguments = append(q.InputArguments, g.variant(2))
				}
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "RequestHeader" {
				a.hostile(g, v.Field(i), v.Type().Field(i).Name, ids, dep+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		if v.Len() == 0 && rr.Intn(3) > 0 {
			n := 1 + rr.Intn(3)
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				g.fill(s.Index(i), 2)
			}
			v.Set(s)
		}
		for i := 0; i < v.Len(); i++ {
			a.hostile(g, v.Index(i), name, ids, dep+1)
		}
	case reflect.Uint32:
		for k, l := range ids {
			if strings.Contains(name, k) && len(l) > 0 && rr.Intn(4) > 0 {
				v.SetUint(uint64(l[rr.Intn(len(l))]))
			}
		}
		if name == "AttributeID" && rr.Intn(5) > 0 {
			v.SetUint(uint64(1 + rr.Intn(27)))
		}
	case reflect.Float64:
		if rr.Intn(2) == 0 {
			v.SetFloat([]float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 1, 100}[rr.Intn(8)])
		}
	case reflect.String:
		if name == "IndexRange" {
			v.SetString([]string{"", "0", "1:2", "0:99999999", "0:0,0:0", "4294967295", "-1", "2:1", ",", "99999999999999999999", "0:1,0:1,0:1,0:1", ":"}[rr.Intn(12)])
		}
	case reflect.Int32:
		if rr.Intn(2) == 0 {
			v.SetInt(int64(rr.Intn(5)))
		}
	}
}

// filter makes odd monitoring filters.
func (a *t04) filter(g *gen) any {
	rr := g.r
	switch rr.Intn(4) {
	case 0:
		return ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(rr.Intn(5) - 1), DeadbandType: uint32(rr.Intn(4)), DeadbandValue: []float64{0, -1, math.NaN(), math.Inf(1), 50, 101}[rr.Intn(6)]}
	case 1:
		f := ua.AggregateFilter{}
		g.fill(reflect.ValueOf(&f).Elem(), 2)
		return f
	}
	f := ua.EventFilter{}
	for i := rr.Intn(4); i >= 0; i-- {
		s := ua.SimpleAttributeOperand{TypeDefinitionID: a.nodes[rr.Intn(len(a.nodes))], AttributeID: uint32(rr.Intn(30)), IndexRange: []string{"", "0", "1:0", "x"}[rr.Intn(4)]}
		if rr.Intn(3) == 0 {
			s = ua.BaseEventSelectClauses[rr.Intn(len(ua.BaseEventSelectClauses))]
		}
		for k := rr.Intn(3); k > 0; k-- {
			s.BrowsePath = append(s.BrowsePath, ua.NewQualifiedName(uint16(rr.Intn(3)), []string{"EventType", "Severity", "", "Message", "x"}[rr.Intn(5)]))
		}
		f.SelectClauses = append(f.SelectClauses, s)
	}
	n := rr.Intn(5)
	for i := 0; i < n; i++ {
		e := ua.ContentFilterElement{FilterOperator: ua.FilterOperator(rr.Intn(20) - 1)}
		for k := rr.Intn(4); k > 0; k-- {
			var o any
			switch rr.Intn(6) {
			case 0:
				o = ua.ElementOperand{Index: uint32(rr.Intn(n + 2))} // also itself and elements before
			case 1:
				o = ua.LiteralOperand{Value: g.variant(2)}
			case 2:
				o = ua.BaseEventSelectClauses[rr.Intn(len(ua.BaseEventSelectClauses))]
			case 3:
				o = ua.AttributeOperand{NodeID: a.nodes[rr.Intn(len(a.nodes))], AttributeID: uint32(rr.Intn(30))}
			case 4:
				o = g.extObj(2)
			}
			e.FilterOperands = append(e.FilterOperands, o)
		}
		f.WhereClause.Elements = append(f.WhereClause.Elements, e)
	}
	return f
}

// nested encodes a write whose value is nested deeply.
func (a *t04) nested(cl *raw.Client, rr *rand.Rand) []byte {
	q := writeReq(a.nodes[0], "MARKERMARKERMARKER")
	b := raw.MustEncode(prepped(cl, q))
	i := strings.Index(string(b), "MARKERMARKERMARKER") - 5 // variant type byte, length
	var v []byte
	depth := []int{10, 99, 100, 101, 1000, 20000, 150000}[rr.Intn(7)]
	switch rr.Intn(2) {
	case 0: // array of one variant, nested
		for k := 0; k < depth; k++ {
			v = append(v, 24|0x80, 1, 0, 0, 0)
		}
		v = append(v, 1, 1)
	case 1: // data value in a variant, nested
		for k := 0; k < depth; k++ {
			v = append(v, 23, 1)
		}
		v = append(v, 1, 1)
	}
	return append(append(append([]byte{}, b[:i]...), v...), b[i+5+18:]...)
}

// requestAttack: malformed and absurd requests inside a session.
func (a *t04) requestAttack(rr *rand.Rand) {
	x := allModes()[rr.Intn(len(allModes()))]
	if rr.Intn(2) == 0 {
		x = allModes()[0]
	}
	cl, err := a.w.RawSession(x.p, x.m, func(cf *raw.Config) { cf.Timeout = t04Limit })
	if err != nil {
		a.c.Violate("attacker-session", "%v: a proper session was refused: %v", x, err)
		return
	}
	defer cl.Close()
	cl.Timeout = t04Limit
	ids := map[string][]uint32{}
	for i := 0; i < 2; i++ {
		if res, err := cl.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 3, PublishingEnabled: true}); err == nil {
			id := res.(*ua.CreateSubscriptionResponse).SubscriptionID
			ids["SubscriptionID"] = append(ids["SubscriptionID"], id)
			if res, err := cl.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: id, ItemsToCreate: []ua.MonitoredItemCreateRequest{valueItem(a.nodes[0], 1, 50, 2, true, nil), valueItem(a.nodes[2], 2, 50, 2, true, nil)}}); err == nil {
				for _, q := range res.(*ua.CreateMonitoredItemsResponse).Results {
					for _, k := range []string{"MonitoredItemID", "TriggeringItemID", "Links"} {
						ids[k] = append(ids[k], q.MonitoredItemID)
					}
				}
			}
		}
	}
	g := &gen{r: rr, maxDep: 3, maxLen: 4}
	out := map[uint32]bool{} // Publish requests
	for i := 0; i < 30 && !a.done(); i++ {
		t := a.reqs[rr.Intn(len(a.reqs))]
		var body []byte
		name := t.Name()
		noAnswer := t.Name() == "PublishRequest"
		if rr.Intn(40) == 0 {
			body = a.nested(cl, rr)
			name = "nested"
		} else {
			q := reflect.New(t)
			g.fill(q.Elem(), 3)
			a.hostile(g, q.Elem(), "", ids, 0)
			req := q.Interface().(ua.ServiceRequest)
			hd := req.Header()
			*hd = ua.RequestHeader{}
			if rr.Intn(10) == 0 {
				g.fill(reflect.ValueOf(hd).Elem(), 3)
				hd.RequestHandle = 0
				if rr.Intn(2) == 0 {
					hd.AuthenticationToken = nil
				}
			}
			switch q := req.(type) {
			case *ua.ReadRequest:
				if rr.Intn(3) > 0 {
					q.MaxAge = 0
				}
			case *ua.OpenSecureChannelRequest:
				continue
			}
			cl.Prep(req)
			var err error
			body, err = raw.Encode(req)
			if err != nil {
				continue
			}
		}
		mut := "whole"
		switch rr.Intn(8) {
		case 0, 1:
			body = mutate(rr, body, 4)
			mut = "mutated"
		case 2:
			body = body[:4+rr.Intn(len(body)-3)]
			mut = "cut"
		case 3:
			body = append(body, make([]byte, 1+rr.Intn(100))...)
			mut = "extended"
		case 4:
			body = append([]byte{1, 0, byte(rr.Intn(256)), byte(1 + rr.Intn(3))}, body[4:]...)
			mut = "retyped"
			noAnswer = true
		}
		id := cl.NextReq()
		cl.Conn.SetDeadline(time.Now().Add(t04Limit))
		if err := cl.SendMsg("MSG", id, body); err != nil {
			return
		}
		a.c.Eval("request/" + name + "/" + mut)
		if noAnswer {
			out[id] = true
			continue
		}
		for {
			cl.Conn.SetDeadline(time.Now().Add(t04Limit))
			m, err := cl.RecvMsg()
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				a.c.Violate("silent/request/"+name, "%v: a request (%s, %s) was neither answered nor the connection closed", x, name, mut)
				return
			}
			if err != nil {
				a.c.Count("disconnected", 1)
				return
			}
			if m.ReqID == id {
				break
			}
			if !out[m.ReqID] {
				a.c.Violate("stray/"+name, "%v: a response for request %d, which is not outstanding", x, m.ReqID)
				return
			}
			delete(out, m.ReqID)
		}
		a.c.Count("answered", 1)
	}
}

// resetAttack: connections reset in the middle of things.
func (a *t04) resetAttack(rr *rand.Rand) {
	x := allModes()[rr.Intn(len(allModes()))]
	stage := rr.Intn(4)
	reset := func(c net.Conn) {
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	}
	a.c.Eval(fmt.Sprintf("reset/%v/%d", x, stage))
	if stage == 0 {
		conn, err := raw.DialTCP(a.w.URL, 10*time.Second)
		if err != nil {
			return
		}
		conn.Write(helFrame(rr, a.w.URL))
		reset(conn)
		return
	}
	cl, err := a.w.RawSession(x.p, x.m, func(cf *raw.Config) { cf.Timeout = t04Limit })
	if err != nil {
		a.c.Violate("attacker-session", "%v: a proper session was refused: %v", x, err)
		return
	}
	switch stage {
	case 1:
		f := cl.SealSym("MSGF", cl.ChannelID, cl.TokenID, cl.NextSeq(), cl.NextReq(), raw.MustEncode(prepped(cl, readReq(a.big))))
		cl.Conn.Write(f[:rr.Intn(len(f))])
	case 2:
		for i := 0; i < 5; i++ {
			cl.Send(readReq(a.big))
		}
	case 3:
		cl.Send(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 3, PublishingEnabled: true})
		for i := 0; i < 5; i++ {
			cl.Send(&ua.PublishRequest{})
		}
	}
	reset(cl.Conn)
}

// nonReader asks for much and reads nothing.
func (a *t04) nonReader(rr *rand.Rand) {
	x := allModes()[rr.Intn(len(allModes()))]
	cl, err := a.w.RawSession(x.p, x.m, func(cf *raw.Config) { cf.Timeout = t04Limit })
	if err != nil {
		a.c.Violate("attacker-session", "%v: a proper session was refused: %v", x, err)
		return
	}
	defer cl.Close()
	cl.Timeout = t04Limit
	cl.Conn.(*net.TCPConn).SetReadBuffer(4096)
	for i := 0; i < 4; i++ {
		res, err := cl.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 3, PublishingEnabled: true})
		if err != nil {
			a.c.Violate("attacker-session", "%v: %v", x, err)
			return
		}
		var items []ua.MonitoredItemCreateRequest
		for k := 0; k < 20; k++ {
			items = append(items, valueItem(a.fast, uint32(k), 50, 100, true, nil))
		}
		cl.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: res.(*ua.CreateSubscriptionResponse).SubscriptionID, ItemsToCreate: items})
	}
	n, start := 0, time.Now()
	for !a.done() {
		cl.Conn.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
		var err error
		if rr.Intn(3) > 0 && n < 50 {
			_, err = cl.Send(&ua.PublishRequest{})
		} else {
			_, err = cl.Send(readReq(a.big))
		}
		if err != nil {
			break // the way to the server is full, or it has closed
		}
		n++
	}
	a.c.Eval(fmt.Sprintf("nonreader/%v", x))
	a.c.Count("unread_requests", n)
	// long enough for what waits for this peer to be noticed by the bystanders
	for !a.done() || time.Since(start) < t04Limit+8*time.Second && !a.c.Violated() {
		time.Sleep(20 * time.Millisecond)
	}
}

// exhaust opens connections until the process has no file descriptors left, and expects to be served after they
// were closed. The server and the peer share the limit of this process.
func (a *t04) exhaust() {
	var lim, old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
	fds, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, odd := range []uint64{0, 1} {
		lim = old
		lim.Cur = uint64(len(fds)) + 60 + odd
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
		var conns []net.Conn
		for i := 0; i < 200; i++ {
			conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", a.w.Port), time.Second)
			if err != nil {
				break
			}
			conns = append(conns, conn)
		}
		// the server has a connection to accept and cannot
		time.Sleep(300 * time.Millisecond)
		n := len(conns)
		for _, conn := range conns {
			conn.Close()
		}
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old))
		a.c.Count("exhausting_connections", n)
		a.c.Eval(fmt.Sprintf("exhaust/%d", odd))
		time.Sleep(1500 * time.Millisecond)
		cl, err := a.w.Dial(raw.None, raw.ModeNone)
		if err != nil {
			a.c.Violate("exhaust", "the server accepts no connection after %d connections used up the file descriptors and were closed: %v", n, err)
			return
		}
		if _, err := cl.Read(bg(), readReq(ua.VariableIDServerServerStatusState)); err != nil {
			a.c.Violate("exhaust", "a request fails after the file descriptors were used up: %v", err)
		}
		cl.Close(bg())
	}
}

// flood sends messages without end, past the limits that the server states.
func (a *t04) flood(rr *rand.Rand) {
	for i := 0; i < 8 && !a.done(); i++ {
		x := allModes()[[]int{0, 0, 1 + rr.Intn(10), 1 + rr.Intn(10)}[i%4]]
		size := []int{8, 65000}[i%2]
		cl, err := a.w.RawSession(x.p, x.m, func(cf *raw.Config) { cf.Timeout = t04Limit })
		if err != nil {
			a.c.Violate("attacker-session", "%v: a proper session was refused: %v", x, err)
			return
		}
		id := cl.NextReq()
		cl.Conn.SetDeadline(time.Now().Add(t04Limit))
		n, sent := 0, 0
		for ; err == nil && (n < 2*4096 && sent < 2*64<<20); n++ {
			_, err = cl.Conn.Write(cl.SealSym("MSGC", cl.ChannelID, cl.TokenID, cl.NextSeq(), id, make([]byte, size)))
			sent += size
		}
		if err == nil {
			// all of it may be in the buffers
			cl.Conn.SetDeadline(time.Now().Add(5 * time.Second))
			_, err = cl.RecvMsg()
		}
		if ne, ok := err.(net.Error); err == nil || ok && ne.Timeout() {
			a.c.Violate("flood", "%v: a message of %d chunks and %d bytes without an end was not refused: %v", x, n, sent, err)
		}
		cl.Close()
		a.c.Count("flood_bytes", sent)
		a.c.Eval(fmt.Sprintf("flood/%v/%d", x, size))
	}
}

// loris opens connections and is silent.
func (a *t04) loris() {
	var conns []net.Conn
	start := time.Now()
	for i := 0; i < 150; i++ {
		conn, err := raw.DialTCP(a.w.URL, 10*time.Second)
		if err != nil {
			a.c.Violate("accept", "the server does not accept connections: %v", err)
			return
		}
		if i%3 > 0 {
			conn.Write(raw.Frame("HELF", raw.Str(raw.U32(nil, 0, 65536, 65536, 0, 0), []byte(a.w.URL)))[:i%33])
		}
		conns = append(conns, conn)
	}
	a.c.Eval("loris")
	for !a.done() {
		time.Sleep(20 * time.Millisecond)
	}
	if time.Since(start) > 24*time.Second && !a.c.Violated() {
		for i, conn := range conns {
			if !drain(conn, t04Limit) {
				a.c.Violate("silent/loris", "connection %d, which never opened a channel, is still open after %v", i, time.Since(start))
				break
			}
		}
	}
	for _, conn := range conns {
		conn.Close()
	}
}

var _ = rsa.ErrVerification
