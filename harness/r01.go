package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
	"verifharness/raw"
)

func init() {
	register("R01", &check{run: runR01, minEvals: 5000, minDistinct: 150,
		rule:        "an independent scripted server answers the library's client in any order, late, twice, unasked, with the wrong kind of response, with faults or never, stops reading, or drops the connection at any point; every call must return the answer planned for its own request or an error, in time, Close and Abort must return and release the connection, and no goroutine of the client may remain",
		assumptions: []string{"in time means: 5 s after the deadline, the cancellation or the loss of the connection, to allow for load"}})
}

const r01Slack = 5 * time.Second

// r01Plan says how the server treats a request.
type r01Plan struct {
	kind  string
	delay time.Duration
}

// r01Conn is the script of a connection.
type r01Conn struct {
	mu     sync.Mutex
	plans  map[string]r01Plan
	r      *rand.Rand
	held   []func() // answers that wait, to be sent in another order
	hold   int
	seen   atomic.Int64
	onSeen func(n int64, sc *raw.ServerConn)
}

var r01reg sync.Map // marker -> *r01Conn

func r01Handle(sc *raw.ServerConn, m *raw.Msg, req ua.ServiceRequest) bool {
	q, ok := req.(*ua.ReadRequest)
	if !ok || len(q.NodesToRead) != 1 {
		return false
	}
	id, ok := q.NodesToRead[0].NodeID.(ua.NodeIDString)
	if !ok {
		return false
	}
	v, ok := r01reg.Load(id.ID)
	if !ok {
		return false
	}
	k := v.(*r01Conn)
	k.mu.Lock()
	p := k.plans[id.ID]
	n := k.seen.Add(1)
	onSeen := k.onSeen
	x := k.r.Intn(1 << 30)
	k.mu.Unlock()
	if onSeen != nil {
		onSeen(n, sc)
	}
	h := raw.Header(req)
	good := &ua.ReadResponse{ResponseHeader: h, Results: []ua.DataValue{ua.NewDataValue("answer:"+id.ID, 0, time.Time{}, 0, time.Now(), 0)}}
	wrong := &ua.ReadResponse{ResponseHeader: h, Results: []ua.DataValue{ua.NewDataValue("second answer for "+id.ID, 0, time.Time{}, 0, time.Now(), 0)}}
	send := func() {
		switch p.kind {
		case "good":
			sc.Reply(m, good)
		case "twice":
			sc.Reply(m, good)
			sc.Reply(m, wrong)
		case "fault":
			h.ServiceResult = ua.BadResourceUnavailable
			sc.Reply(m, &ua.ServiceFault{ResponseHeader: h})
		case "badresult":
			h.ServiceResult = ua.BadTooManyOperations
			sc.Reply(m, &ua.ReadResponse{ResponseHeader: h})
		case "wrongtype":
			sc.Reply(m, &ua.WriteResponse{ResponseHeader: h, Results: []ua.StatusCode{0}})
		case "unasked":
			u := *wrong
			u.RequestHandle = uint32(1<<31 + x)
			sc.Reply(&raw.Msg{ReqID: u.RequestHandle}, &u)
			sc.Reply(m, good)
		case "huge":
			g := *good
			g.Results = append([]ua.DataValue{}, good.Results...)
			g.Results = append(g.Results, ua.NewDataValue(ua.ByteString(make([]byte, 200000)), 0, time.Time{}, 0, time.Now(), 0))
			sc.Reply(m, &g)
		case "late": // after the caller has gone
			time.Sleep(p.delay)
			sc.Reply(m, good)
		case "never":
		}
	}
	switch {
	case p.kind == "late" || p.delay > 0:
		go func() {
			if p.kind != "late" {
				time.Sleep(p.delay)
			}
			send()
		}()
	case k.hold > 0 && x%3 > 0:
		// held back and released in another order
		k.mu.Lock()
		k.held = append(k.held, send)
		var l []func()
		if len(k.held) >= k.hold {
			l, k.held = k.held, nil
		}
		k.mu.Unlock()
		for i := len(l) - 1; i >= 0; i-- {
			l[i]()
		}
	default:
		send()
	}
	return true
}

// flush releases what is held back, now and then.
func (k *r01Conn) flush(stop *atomic.Bool) {
	for !stop.Load() {
		time.Sleep(40 * time.Millisecond)
		k.mu.Lock()
		l := k.held
		k.held = nil
		k.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		k.mu.Unlock()
		for _, f := range l {
			f()
		}
	}
}

type r01 struct {
	c    *Ctx
	cert []byte
	srv  []byte
	n    atomic.Int64
}

func (a *r01) server() *raw.Server {
	s, err := raw.NewServer(rsaKey("k0"), a.srv)
	must(err)
	s.OnMsg = r01Handle
	go s.Serve()
	return s
}

func (a *r01) dial(ctx context.Context, s *raw.Server, x polMode, opts ...client.Option) (*client.Client, error) {
	o := []client.Option{client.WithInsecureSkipVerify()}
	if x.p == raw.None {
		o = append(o, client.WithSecurityPolicyURI(ua.SecurityPolicyURINone, ua.MessageSecurityModeNone))
	} else {
		o = append(o, client.WithSecurityPolicyURI(x.p.URI, ua.MessageSecurityMode(x.m)), client.WithClientCertificate(a.cert, rsaKey("k1")))
	}
	return client.Dial(ctx, s.URL, append(o, opts...)...)
}

func (a *r01) mustDial(s *raw.Server, x polMode, opts ...client.Option) *client.Client {
	ctx, cancel := ctxT(30 * time.Second)
	defer cancel()
	cl, err := a.dial(ctx, s, x, opts...)
	if err != nil {
		a.c.Violate("dial", "%v: connecting to a well-behaved server fails: %v", x, err)
		return nil
	}
	return cl
}

// call reads one marker and judges the outcome.
func (a *r01) call(k *r01Conn, cl *client.Client, x polMode, p r01Plan, timeout time.Duration, cancelled bool, lost *atomic.Int64) {
	id := fmt.Sprintf("m%d", a.n.Add(1))
	k.mu.Lock()
	k.plans[id] = p
	k.mu.Unlock()
	r01reg.Store(id, k)
	defer r01reg.Delete(id)
	var ctx context.Context
	var cancel context.CancelFunc
	if cancelled {
		ctx, cancel = context.WithCancel(bg())
		time.AfterFunc(timeout, cancel)
	} else {
		ctx, cancel = ctxT(timeout)
	}
	defer cancel()
	start := time.Now()
	res, err := cl.Read(ctx, readReq(ua.NewNodeIDString(1, id)))
	took := time.Since(start)
	var lostAt int64
	if lost != nil {
		lostAt = lost.Load()
	}
	a.c.Eval(fmt.Sprintf("call/%v/%s/%v/%v/%v", x, p.kind, cancelled, err == nil, lostAt > 0))
	if took > timeout+r01Slack {
		a.c.Violate("late-return/"+p.kind, "%v: a call with a limit of %v returned after %v (%v)", x, timeout, took, err)
	}
	if lostAt > 0 {
		if d := time.Since(time.Unix(0, lostAt)); d > r01Slack && took > r01Slack && time.Duration(start.UnixNano()+int64(took)-lostAt) > r01Slack {
			a.c.Violate("lost-return", "%v: a call returned %v after the connection was lost (%v)", x, d, err)
		}
	}
	if err == nil {
		if res == nil || len(res.Results) == 0 {
			a.c.Violate("empty/"+p.kind, "%v: a call returned neither a result nor an error (plan %s)", x, p.kind)
			return
		}
		if s, _ := res.Results[0].Value.(string); s != "answer:"+id {
			a.c.Violate("crossed/"+p.kind, "%v: the call for %s returned %v", x, id, res.Results[0].Value)
		}
	}
	gone := lost != nil && (lostAt > 0 || err != nil)
	switch p.kind {
	case "good", "twice", "unasked", "huge":
		// the time that was left is enough
		if err != nil && !gone && timeout-p.delay > 20*time.Second {
			a.c.Violate("failed/"+p.kind, "%v: the answer was sent and the call failed after %v: %v", x, took, err)
		}
	case "fault":
		if err == nil || err != error(ua.BadResourceUnavailable) && !gone && timeout > 20*time.Second {
			a.c.Violate("fault", "%v: a fault was returned as %v", x, err)
		}
	case "badresult":
		if err == nil || err != error(ua.BadTooManyOperations) && !gone && timeout > 20*time.Second {
			a.c.Violate("badresult", "%v: a service result was returned as %v", x, err)
		}
	case "wrongtype", "never":
		if err == nil {
			a.c.Violate("made-up/"+p.kind, "%v: a call that was not answered (%s) succeeded", x, p.kind)
		}
	}
	if p.kind == "wrongtype" && took > r01Slack && timeout > 3*r01Slack && !gone {
		a.c.Violate("wrongtype-wait", "%v: a response of another kind kept the call waiting for %v", x, took)
	}
}

func randMode(r *rand.Rand) polMode {
	all := allModes()
	if r.Intn(3) == 0 {
		return all[0]
	}
	return all[r.Intn(len(all))]
}

// mix: many calls at once, answered in every way, the connection stays.
func (a *r01) mix(r *rand.Rand) {
	s := a.server()
	defer s.Close()
	x := randMode(r)
	cl := a.mustDial(s, x)
	if cl == nil {
		return
	}
	k := &r01Conn{plans: map[string]r01Plan{}, r: rand.New(rand.NewSource(r.Int63())), hold: 2 + r.Intn(30)}
	var stop atomic.Bool
	go k.flush(&stop)
	var wg sync.WaitGroup
	width := 1 + r.Intn(80)
	rounds := 200/width + 2
	for g := 0; g < width; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < rounds && !a.c.Violated(); i++ {
				p := r01Plan{kind: pick(rr, "good", "good", "good", "twice", "fault", "badresult", "wrongtype", "unasked", "huge", "late", "never")}
				timeout := 40 * time.Second
				cancelled := false
				if rr.Intn(4) == 0 {
					p.delay = time.Duration(rr.Intn(150)) * time.Millisecond
				}
				switch {
				case p.kind == "late":
					timeout = time.Duration(5+rr.Intn(60)) * time.Millisecond
					p.delay = timeout + time.Duration(rr.Intn(60)-20)*time.Millisecond
					cancelled = rr.Intn(2) == 0
				case p.kind == "never":
					timeout = time.Duration(1+rr.Intn(300)) * time.Millisecond
					cancelled = rr.Intn(2) == 0
				case rr.Intn(8) == 0: // given up at about the time of the answer
					timeout = time.Duration(rr.Intn(3000)) * time.Microsecond
					cancelled = rr.Intn(2) == 0
				}
				a.call(k, cl, x, p, timeout, cancelled, nil)
			}
		}()
	}
	wg.Wait()
	stop.Store(true)
	a.end(cl, s, x, r, "mix")
}

// end closes a client and waits for the server to see the connection end.
func (a *r01) end(cl *client.Client, s *raw.Server, x polMode, r *rand.Rand, what string) {
	how := "close"
	f := func() { cl.Close(ctx5()) }
	if r.Intn(3) == 0 {
		how = "abort"
		f = func() { cl.Abort(bg()) }
	}
	if !within(10*time.Second, f) {
		a.c.Violate("hang/"+how+"/"+what, "%v: %s does not return", x, how)
		return
	}
	a.c.Eval(fmt.Sprintf("end/%s/%s/%v", how, what, x))
	// also later calls fail at once
	t := time.Now()
	_, err := cl.Read(bg(), readReq(ua.ObjectIDServer))
	if err == nil || time.Since(t) > r01Slack {
		a.c.Violate("after/"+how+"/"+what, "%v: a call after %s returned %v after %v", x, how, err, time.Since(t))
	}
	if r.Intn(2) == 0 {
		if !within(10*time.Second, func() { cl.Close(ctx5()); cl.Abort(bg()) }) {
			a.c.Violate("hang/again/"+what, "%v: closing again does not return", x)
		}
	}
	a.released(s, x, how+"/"+what)
}

func ctx5() context.Context {
	ctx, cancel := ctxT(5 * time.Second)
	time.AfterFunc(6*time.Second, cancel)
	return ctx
}

// released waits until every connection at the server has ended.
func (a *r01) released(s *raw.Server, x polMode, what string) {
	for _, c := range s.Conns() {
		c.Conn.SetReadDeadline(time.Now().Add(r01Slack))
		buf := make([]byte, 65536)
		for {
			_, err := c.Conn.Read(buf)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				a.c.Violate("not-released/"+what, "%v: the connection is still open %v after the client ended (%s)", x, r01Slack, what)
				return
			}
			if err != nil {
				break
			}
		}
	}
}

// drop: the connection is lost while calls are outstanding.
func (a *r01) drop(r *rand.Rand) {
	s := a.server()
	defer s.Close()
	x := randMode(r)
	how := pick(r, "fin", "rst", "midframe", "err", "garbage", "halfclose", "badsize", "openframe")
	// so that the calls that get no answer are enough to reach it
	width := 1 + r.Intn(50)
	at := int64(1 + r.Intn(width))
	var lost atomic.Int64
	cl := a.mustDial(s, x)
	if cl == nil {
		return
	}
	k := &r01Conn{plans: map[string]r01Plan{}, r: rand.New(rand.NewSource(r.Int63()))}
	k.onSeen = func(n int64, sc *raw.ServerConn) {
		if n != at {
			return
		}
		switch how {
		case "rst":
			sc.Conn.(*net.TCPConn).SetLinger(0)
			sc.Conn.Close()
		case "fin":
			sc.Conn.Close()
		case "halfclose":
			sc.Conn.(*net.TCPConn).CloseWrite()
		case "midframe":
			f := sc.SealSym("MSGF", sc.ChannelID, sc.TokenID, sc.NextSeq(), 1, make([]byte, 100))
			sc.Conn.Write(f[:len(f)/2])
			sc.Conn.Close()
		case "err":
			sc.Conn.Write(raw.Frame("ERRF", raw.Str(raw.U32(nil, uint32(ua.BadTCPInternalError)), []byte("stop"))))
		case "garbage":
			sc.Conn.Write([]byte("this is no message of the protocol at all, not even nearly"))
		case "badsize":
			f := raw.Frame("MSGF", make([]byte, 100))
			binary.LittleEndian.PutUint32(f[4:], []uint32{0, 4, 0x7fffffff, 0xffffffff}[n%4])
			sc.Conn.Write(f)
		case "openframe":
			sc.Conn.Write(raw.Frame("OPNF", make([]byte, 40)))
		}
		lost.Store(time.Now().UnixNano())
	}
	var wg sync.WaitGroup
	for g := 0; g < width; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1+20/width; i++ {
				a.call(k, cl, x, r01Plan{kind: pick(rr, "good", "never", "twice")}, 40*time.Second, rr.Intn(2) == 0, &lost)
			}
		}()
	}
	ok := within(60*time.Second, wg.Wait)
	if !ok {
		a.c.Violate("drop-hang/"+how, "%v: calls do not return after the connection was lost (%s)", x, how)
		return
	}
	a.c.Eval(fmt.Sprintf("drop/%s/%v", how, x))
	if lost.Load() > 0 {
		a.c.Count("connections_lost", 1)
		t := time.Now()
		_, err := cl.Read(bg(), readReq(ua.ObjectIDServer))
		if err == nil && how != "halfclose" || time.Since(t) > r01Slack {
			a.c.Violate("drop-after/"+how, "%v: a call after the connection was lost (%s) returned %v after %v", x, how, err, time.Since(t))
		}
	}
	a.end(cl, s, x, r, "drop-"+how)
}

// ended: the client is closed while calls are outstanding.
func (a *r01) ended(r *rand.Rand) {
	s := a.server()
	defer s.Close()
	x := randMode(r)
	cl := a.mustDial(s, x)
	if cl == nil {
		return
	}
	// the server may not answer CloseSession
	mute := r.Intn(3) == 0
	s.OnMsg = func(sc *raw.ServerConn, m *raw.Msg, req ua.ServiceRequest) bool {
		if _, ok := req.(*ua.CloseSessionRequest); ok && mute {
			return true
		}
		return r01Handle(sc, m, req)
	}
	k := &r01Conn{plans: map[string]r01Plan{}, r: rand.New(rand.NewSource(r.Int63()))}
	var lost atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < 1+r.Intn(50); g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3; i++ {
				a.call(k, cl, x, r01Plan{kind: pick(rr, "never", "never", "good")}, 60*time.Second, false, &lost)
			}
		}()
	}
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	how := pick(r, "close", "abort", "both", "abort+close")
	var cw sync.WaitGroup
	run := func(f func()) {
		cw.Add(1)
		go func() { defer cw.Done(); f() }()
	}
	cls := func() {
		ctx, cancel := ctxT(2 * time.Second)
		defer cancel()
		cl.Close(ctx)
	}
	t := time.Now()
	switch how {
	case "close":
		run(cls)
	case "abort":
		run(func() { cl.Abort(bg()) })
	case "both":
		run(cls)
		run(cls)
	case "abort+close":
		run(cls)
		run(func() { cl.Abort(bg()) })
	}
	if !within(2*time.Second+2*r01Slack, cw.Wait) {
		a.c.Violate("close-hang/"+how, "%v: %s does not return with calls outstanding (CloseSession answered: %v)", x, how, !mute)
		return
	}
	lost.Store(time.Now().UnixNano())
	a.c.Eval(fmt.Sprintf("ended/%s/%v/%v", how, mute, x))
	if !within(3*r01Slack, wg.Wait) {
		a.c.Violate("close-calls/"+how, "%v: calls do not return %v after %s", x, 3*r01Slack, how)
		return
	}
	a.c.Sample("outstanding", fmt.Sprintf("%v %s with calls outstanding took %v", x, how, time.Since(t).Round(time.Millisecond)))
	a.released(s, x, "ended/"+how)
}

// stuck: the server stops reading.
func (a *r01) stuck(r *rand.Rand) {
	s := a.server()
	defer s.Close()
	x := randMode(r)
	var block atomic.Bool
	release := make(chan struct{})
	defer close(release)
	s.OnRecv = func(sc *raw.ServerConn, m *raw.Msg) {
		if block.Load() {
			<-release
		}
	}
	cl := a.mustDial(s, x)
	if cl == nil {
		return
	}
	for _, c := range s.Conns() {
		c.Conn.(*net.TCPConn).SetReadBuffer(4096)
	}
	block.Store(true)
	big := writeReq(ua.NewNodeIDString(1, "big"), ua.ByteString(make([]byte, 3<<20)))
	var wg, patient sync.WaitGroup
	if r.Intn(2) == 0 {
		// some that have more time; one of them sends all the while
		for range 6 {
			patient.Add(1)
			go func() {
				defer patient.Done()
				ctx, cancel := ctxT(60 * time.Second)
				defer cancel()
				q := *big
				q.RequestHeader = ua.RequestHeader{TimeoutHint: 60000}
				if _, err := cl.Write(ctx, &q); err == nil {
					a.c.Violate("stuck-made-up", "%v: a call succeeded that the server never read", x)
				}
			}()
		}
		time.Sleep(100 * time.Millisecond)
	}
	for g := 0; g < 2+r.Intn(8); g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3; i++ {
				limit := time.Duration(100+rr.Intn(900)) * time.Millisecond
				var ctx context.Context
				var cancel context.CancelFunc
				if rr.Intn(2) == 0 {
					ctx, cancel = ctxT(limit)
				} else {
					ctx, cancel = context.WithCancel(bg())
					time.AfterFunc(limit, cancel)
				}
				t := time.Now()
				var err error
				if rr.Intn(2) == 0 {
					q := *big
					q.RequestHeader = ua.RequestHeader{}
					_, err = cl.Write(ctx, &q)
				} else {
					_, err = cl.Read(ctx, readReq(ua.ObjectIDServer))
				}
				cancel()
				if err == nil {
					a.c.Violate("stuck-made-up", "%v: a call succeeded that the server never read", x)
				}
				if d := time.Since(t); d > limit+r01Slack {
					a.c.Violate("stuck-late", "%v: a call with a limit of %v returned after %v while the server does not read: %v", x, limit, d, err)
				}
			}
		}()
	}
	early := r.Intn(2) == 0
	if early {
		time.Sleep(time.Duration(r.Intn(500)) * time.Millisecond)
	} else {
		wg.Wait()
	}
	how := pick(r, "close", "abort")
	t := time.Now()
	ok := within(2*time.Second+2*r01Slack, func() {
		if how == "close" {
			ctx, cancel := ctxT(2 * time.Second)
			defer cancel()
			cl.Close(ctx)
		} else {
			cl.Abort(bg())
		}
	})
	if !ok {
		a.c.Violate("stuck-hang/"+how, "%v: %s does not return while the server does not read", x, how)
		return
	}
	a.c.Eval(fmt.Sprintf("stuck/%s/%v/%v", how, early, x))
	if !within(3*r01Slack, func() { wg.Wait(); patient.Wait() }) {
		a.c.Violate("stuck-calls/"+how, "%v: calls do not return after %s while the server does not read", x, how)
	}
	a.c.Sample("stuck", fmt.Sprintf("%v %s while the server does not read took %v", x, how, time.Since(t).Round(time.Millisecond)))
}

// unborn: the server stops answering at some point of connecting.
func (a *r01) unborn(r *rand.Rand) {
	s := a.server()
	defer s.Close()
	x := randMode(r)
	at := r.Intn(7)
	what := pick(r, "silent", "silent", "close", "garbage")
	var conns atomic.Int64
	react := func(sc *raw.ServerConn) bool {
		switch what {
		case "close":
			sc.Conn.Close()
		case "garbage":
			sc.Conn.Write([]byte("garbage that is not a message at all"))
		}
		return true
	}
	s.OnHello = func(sc *raw.ServerConn, _ []byte) bool {
		// the first connection asks for the endpoints
		n := conns.Add(1)
		if at == 0 || at == 1 && n > 1 {
			return react(sc)
		}
		return false
	}
	s.OnOpen = func(sc *raw.ServerConn, o *raw.Opened, q *ua.OpenSecureChannelRequest, p *ua.OpenSecureChannelResponse) bool {
		if at == 2 && conns.Load() > 1 {
			return react(sc)
		}
		return false
	}
	s.OnMsg = func(sc *raw.ServerConn, m *raw.Msg, req ua.ServiceRequest) bool {
		switch req.(type) {
		case *ua.GetEndpointsRequest:
			if at == 3 {
				return react(sc)
			}
		case *ua.CreateSessionRequest:
			if at == 4 {
				return react(sc)
			}
		case *ua.ActivateSessionRequest:
			if at == 5 {
				return react(sc)
			}
		case *ua.ReadRequest:
			if at == 6 {
				return react(sc)
			}
		}
		return false
	}
	limit := time.Duration(200+r.Intn(800)) * time.Millisecond
	var ctx context.Context
	var cancel context.CancelFunc
	if r.Intn(2) == 0 {
		ctx, cancel = ctxT(limit)
	} else {
		ctx, cancel = context.WithCancel(bg())
		time.AfterFunc(limit, cancel)
	}
	defer cancel()
	t := time.Now()
	var cl *client.Client
	var err error
	if !within(limit+3*r01Slack, func() { cl, err = a.dial(ctx, s, x) }) {
		a.c.Violate(fmt.Sprintf("dial-hang/%d/%s", at, what), "%v: connecting with a limit of %v does not return when the server is %s at stage %d", x, limit, what, at)
		return
	}
	if d := time.Since(t); d > limit+r01Slack {
		a.c.Violate(fmt.Sprintf("dial-late/%d/%s", at, what), "%v: connecting with a limit of %v returned after %v when the server is %s at stage %d", x, limit, d, what, at)
	}
	a.c.Eval(fmt.Sprintf("unborn/%d/%s/%v", at, what, x))
	if err == nil {
		a.c.Violate(fmt.Sprintf("dial-made-up/%d/%s", at, what), "%v: connecting succeeded although the server was %s at stage %d", x, what, at)
		cl.Abort(bg())
		return
	}
	a.released(s, x, fmt.Sprintf("unborn/%d/%s", at, what))
}

func clientGoroutines() (int, string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	ex := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "opcua/client.") {
			n++
			ex = g
		}
	}
	return n, ex
}

func runR01(c *Ctx) {
	r := c.Rng("main")
	a := &r01{c: c}
	a.srv = appCert("raw", "urn:raw:server", rsaKey("k0")).Raw
	a.cert = appCert("client", clientURI, rsaKey("k1")).Raw
	fs := []func(*rand.Rand){a.mix, a.mix, a.drop, a.drop, a.ended, a.stuck, a.unborn}
	end := time.Now().Add(time.Duration(c.N(20, 600)) * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 12; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; time.Now().Before(end) && !c.Violated(); i++ {
				fs[i%len(fs)](rr)
			}
		}()
	}
	if !within(300*time.Second+time.Until(end), wg.Wait) {
		c.Violate("hang", "a scenario does not end")
		return
	}
	if c.Violated() {
		return
	}
	for t := time.Now(); ; time.Sleep(100 * time.Millisecond) {
		n, ex := clientGoroutines()
		if n == 0 {
			break
		}
		if time.Since(t) > 3*r01Slack {
			c.Violate("goroutines", "%d goroutines of the client remain after all clients were closed, such as: %.600s", n, ex)
			break
		}
	}
	_ = errors.Is
}
