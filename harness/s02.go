package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net"
	"sort"
	"sync"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("S02", &check{run: runS02, minEvals: 300, minDistinct: 40,
		rule:        "every create/use/close/abandon of a session is recorded with its invocation and response time; over the history: ids and tokens are pairwise distinct, at no instant are more sessions certainly live than the maximum, a refusal for lack of capacity needs that many possibly live sessions, a token works exactly while its last request is younger than the revised timeout and it was not closed, and publish requests outstanding at a close are answered",
		assumptions: []string{"verdict covers the executions produced by this seed only", "an expired session may occupy capacity until the sweep of the session table (5 s)"}})
}

func runS02(c *Ctx) {
	r := c.Rng("s02")
	var wg sync.WaitGroup
	for _, f := range []func(*Ctx, *rand.Rand){s02Timeouts, s02Churn, s02Expiry, s02Close} {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func(f func(*Ctx, *rand.Rand)) { defer wg.Done(); f(c, rr) }(f)
	}
	wg.Wait()
}

func readNow(rc *raw.Client) error {
	_, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}}})
	return err
}

func isSvc(err error) (ua.StatusCode, bool) {
	var s ua.StatusCode
	if errors.As(err, &s) {
		return s, true
	}
	return 0, false
}

type span struct {
	from, to time.Time
}

// maxOverlap returns the largest number of spans covering one instant (open ends).
func maxOverlap(ss []span) int {
	type ev struct {
		t time.Time
		d int
	}
	var es []ev
	for _, s := range ss {
		if s.to.After(s.from) {
			es = append(es, ev{s.from, 1}, ev{s.to, -1})
		}
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].t.Equal(es[j].t) {
			return es[i].d < es[j].d
		}
		return es[i].t.Before(es[j].t)
	})
	n, m := 0, 0
	for _, e := range es {
		n += e.d
		if n > m {
			m = n
		}
	}
	return m
}

type s02rec struct {
	id, tok               string
	createCall, createRet time.Time
	closeCall, closeRet   time.Time // zero: never closed by us
	lastCall, lastRet     time.Time
	timeout               time.Duration
	abandoned             bool
}

// s02Churn: many clients, few session slots.
func s02Churn(c *Ctx, r *rand.Rand) {
	for round := 0; round < c.N(3, 12); round++ {
		max := 1 + r.Intn(8)
		opts := []server.Option{server.WithMaxSessionCount(uint32(max))}
		if r.Intn(2) == 0 {
			opts = append(opts, server.WithServerDiagnostics(true))
		}
		w := newWorld(c, WorldOpts{Opts: opts})
		var mu sync.Mutex
		var recs []*s02rec
		type rej struct{ call, ret time.Time }
		var rejs []rej
		ids, toks := map[string]bool{}, map[string]bool{}
		var wg sync.WaitGroup
		workers := max + 2 + r.Intn(8)
		per := c.N(25, 60)
		for k := 0; k < workers; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				rc, err := w.Raw(raw.None, raw.ModeNone)
				if err != nil {
					c.Inconclusive("dial: %v", err)
					return
				}
				defer func() { rc.Close() }()
				for i := 0; i < per; i++ {
					rec := &s02rec{}
					rec.createCall = time.Now()
					res, err := rc.CreateSession(fmt.Sprintf("s%d", i), 3600000)
					rec.createRet = time.Now()
					if err != nil {
						if st, ok := isSvc(err); ok && st == ua.BadTooManySessions {
							mu.Lock()
							rejs = append(rejs, rej{rec.createCall, rec.createRet})
							mu.Unlock()
							c.Count("creates refused for capacity", 1)
							time.Sleep(time.Duration(rr.Intn(3)) * time.Millisecond)
							continue
						}
						c.Violate("create-failed", "CreateSession: %v", err)
						return
					}
					rec.id, rec.tok = fmt.Sprint(res.SessionID), fmt.Sprint(res.AuthenticationToken)
					mu.Lock()
					recs = append(recs, rec)
					if ids[rec.id] {
						c.Violate("id-reused", "session id %s was given out twice", rec.id)
					}
					if toks[rec.tok] {
						c.Violate("token-reused", "authentication token %s was given out twice", rec.tok)
					}
					if rec.id == rec.tok {
						c.Violate("token-is-id", "authentication token equals the public session id %s", rec.id)
					}
					ids[rec.id], toks[rec.tok] = true, true
					mu.Unlock()
					act := rr.Intn(5) > 0
					if act {
						if err := rc.ActivateAnonymous(); err != nil {
							c.Violate("activate-failed", "fresh session cannot be activated: %v", err)
							return
						}
						for j := rr.Intn(3); j > 0; j-- {
							if err := readNow(rc); err != nil {
								c.Violate("live-unusable", "a live session was refused: %v (max %d)", err, max)
							}
						}
					}
					if rr.Intn(3) == 0 {
						time.Sleep(time.Duration(rr.Intn(4)) * time.Millisecond)
					}
					if act && rr.Intn(4) == 0 {
						// move to a new channel: the old one dies, the session must not
						rc2, err := w.Raw(raw.None, raw.ModeNone)
						if err == nil {
							rc2.Session, rc2.AuthToken, rc2.ServerNonce, rc2.SessionID = rc.Session, rc.AuthToken, rc.ServerNonce, rc.SessionID
							rc.Close()
							rc = rc2
							if err := rc.ActivateAnonymous(); err != nil {
								c.Violate("resume-failed", "a live session cannot be activated on a new channel after the old one was closed: %v", err)
								return
							}
							if err := readNow(rc); err != nil {
								c.Violate("resume-unusable", "a resumed session was refused: %v", err)
							}
							c.Count("sessions resumed on a new channel", 1)
						}
					}
					rec.closeCall = time.Now()
					// A session that was never activated is closed too, but the service answers with BadSessionNotActivated.
					_, err = rc.Do(&ua.CloseSessionRequest{DeleteSubscriptions: rr.Intn(2) == 0})
					rec.closeRet = time.Now()
					if err != nil && act {
						c.Violate("close-failed", "closing a live session failed: %v", err)
					}
					// dead for good
					for _, e := range []error{readNow(rc), rc.ActivateAnonymous(), readNow(rc)} {
						if e == nil {
							c.Violate("closed-usable", "a request on a closed session succeeded (activated %v)", act)
						} else if _, ok := isSvc(e); !ok {
							c.Violate("closed-channel", "a request on a closed session ended the channel: %v", e)
							return
						}
					}
					rc.AuthToken = nil
					c.Eval(fmt.Sprintf("churn/max%d/act%v", max, act))
				}
			}()
		}
		wg.Wait()
		// at no instant more certainly live sessions than max
		var sure []span
		for _, x := range recs {
			if !x.closeCall.IsZero() {
				sure = append(sure, span{x.createRet, x.closeCall})
			} else {
				sure = append(sure, span{x.createRet, time.Now()})
			}
		}
		if n := maxOverlap(sure); n > max {
			c.Violate("capacity-exceeded", "%d sessions were live at one instant, maximum is %d", n, max)
		} else {
			c.Count(fmt.Sprintf("peak certainly-live sessions = max-%d", max-n), 1)
		}
		// a refusal needs max possibly live sessions at some instant of its interval
		for _, j := range rejs {
			var ps []span
			for _, x := range recs {
				to := x.closeRet
				if to.IsZero() {
					to = time.Now()
				}
				f := x.createCall
				if f.Before(j.call) {
					f = j.call
				}
				if to.After(j.ret) {
					to = j.ret
				}
				ps = append(ps, span{f, to})
			}
			if n := maxOverlap(ps); n < max {
				c.Violate("capacity-lost", "CreateSession was refused with BadTooManySessions while at most %d of %d sessions can have been live", n, max)
			}
			c.Eval("reject")
		}
		// in the end all capacity is back
		var cs []*raw.Client
		for i := 0; i < max; i++ {
			rc, err := w.Raw(raw.None, raw.ModeNone)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				break
			}
			cs = append(cs, rc)
			if _, err := rc.CreateSession("end", 10000); err != nil {
				c.Violate("capacity-lost", "after all sessions were closed only %d of %d could be created: %v", i, max, err)
				break
			}
		}
		if rc, err := w.Raw(raw.None, raw.ModeNone); err == nil {
			if _, err := rc.CreateSession("one more", 10000); err == nil && len(cs) == max {
				c.Violate("capacity-exceeded", "session %d was created, maximum is %d", max+1, max)
			}
			rc.Close()
		}
		for _, rc := range cs {
			rc.Close()
		}
		c.Eval(fmt.Sprintf("capacity/max%d/w%d", max, workers))
	}
}

// s02Timeouts: revised timeouts, and the liveness of sessions with gaps just below and above them.
func s02Timeouts(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{})
	reqs := []float64{0, -1, 1, 9999, 10000, 10001, 12345.5, 60000, 3599999, 3600000, 3600001, 1e18, math.Inf(1), math.Inf(-1), math.NaN(), -0.5, math.MaxFloat64}
	for _, q := range reqs {
		rc, err := w.Raw(raw.None, raw.ModeNone)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		res, err := rc.CreateSession("t", q)
		if err != nil {
			c.Violate("timeout-refused", "CreateSession with requested timeout %v failed: %v", q, err)
			rc.Close()
			continue
		}
		rev := res.RevisedSessionTimeout
		if !(rev > 0) || math.IsInf(rev, 0) {
			c.Violate("timeout-unusable", "requested timeout %v was revised to %v", q, rev)
		}
		if q >= 10000 && q <= 3600000 && rev != q {
			c.Violate("timeout-revised", "requested timeout %v within the supported range was revised to %v", q, rev)
		}
		if err := rc.ActivateAnonymous(); err != nil {
			c.Violate("timeout-dead", "a session with requested timeout %v (revised %v) cannot be activated: %v", q, rev, err)
		} else if err := readNow(rc); err != nil {
			c.Violate("timeout-dead", "a session with requested timeout %v (revised %v) cannot be used: %v", q, rev, err)
		}
		rc.Do(&ua.CloseSessionRequest{})
		rc.Close()
		c.Eval(fmt.Sprintf("revise/%v", q))
	}
	var wg sync.WaitGroup
	kinds := []string{"read", "fault", "publish", "browse", "unactivated", "read", "write"}
	total := time.Duration(c.N(26, 90)) * time.Second
	n := c.N(60, 150)
	for i := 0; i < n; i++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		kind := kinds[i%len(kinds)]
		go func() {
			defer wg.Done()
			rc, err := w.Raw(raw.None, raw.ModeNone)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			defer func() { rc.Close() }()
			want := []float64{1, 10000, 10500, 11000, 12000}[rr.Intn(5)]
			lastCall := time.Now()
			res, err := rc.CreateSession("idle", want)
			lastRet := time.Now()
			if err != nil {
				c.Violate("create-failed", "CreateSession: %v", err)
				return
			}
			timeout := time.Duration(res.RevisedSessionTimeout * float64(time.Millisecond))
			end := time.Now().Add(total)
			active := kind != "unactivated"
			touch := func() error {
				switch kind {
				case "fault": // a request that fails is a request
					_, err := rc.Do(&ua.ReadRequest{})
					if st, ok := isSvc(err); ok && st == ua.BadNothingToDo {
						return nil
					}
					return err
				case "publish":
					_, err := rc.Send(&ua.PublishRequest{})
					if err != nil {
						return err
					}
					rc.Conn.SetDeadline(time.Now().Add(20 * time.Second))
					_, rs, err := rc.Recv()
					if err != nil {
						return err
					}
					if st := rs.Header().ServiceResult; st == ua.BadNoSubscription {
						return nil
					} else {
						return st
					}
				case "browse":
					_, err := rc.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward}}})
					return err
				case "write":
					_, err := rc.Do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDNumeric(9, 9), AttributeID: ua.AttributeIDValue}}})
					return err
				}
				return readNow(rc)
			}
			gaps := 0
			for {
				var gap time.Duration
				switch rr.Intn(4) {
				case 0:
					gap = timeout - time.Duration(300+rr.Intn(1200))*time.Millisecond
				case 1:
					gap = timeout + time.Duration(50+rr.Intn(700))*time.Millisecond
				case 2:
					gap = time.Duration(rr.Int63n(int64(timeout)))
				default:
					gap = timeout*6/10 + time.Duration(rr.Intn(2000))*time.Millisecond
				}
				if gaps == 0 {
					gap = time.Duration(rr.Int63n(int64(timeout + timeout/3)))
					if kind != "unactivated" {
						gap = 0
					}
				}
				if time.Now().Add(gap).After(end) {
					break
				}
				time.Sleep(gap)
				call := time.Now()
				var err error
				if !active || gaps == 0 {
					err = rc.ActivateAnonymous()
					active = active || err == nil
				} else {
					err = touch()
				}
				ret := time.Now()
				const slack = 5 * time.Millisecond
				mustLive := ret.Sub(lastCall) < timeout-slack
				mustDie := call.Sub(lastRet) > timeout+slack
				sig := fmt.Sprintf("idle/%s/%v/live=%v/die=%v", kind, want, mustLive, mustDie)
				if err != nil {
					if _, ok := isSvc(err); !ok {
						c.Violate("idle-channel", "%s: request after a gap of %v ended the channel: %v", kind, call.Sub(lastRet), err)
						return
					}
					if mustLive {
						c.Violate("expired-early", "%s: a session with timeout %v was refused %v after its last request: %v", kind, timeout, ret.Sub(lastCall), err)
					}
					// dead for good
					time.Sleep(time.Duration(rr.Intn(3000)) * time.Millisecond)
					for _, f := range []func() error{rc.ActivateAnonymous, func() error { return readNow(rc) }, func() error { _, e := rc.Do(&ua.CloseSessionRequest{}); return e }} {
						if f() == nil {
							c.Violate("expired-revived", "%s: an expired session became usable again", kind)
						}
					}
					c.Eval(sig)
					return
				}
				if mustDie {
					c.Violate("expired-usable", "%s: a session with timeout %v still worked %v after its last request", kind, timeout, call.Sub(lastRet))
				}
				c.Eval(sig)
				lastCall, lastRet = call, ret
				gaps++
				if gaps == 1 && kind == "unactivated" {
					kind = "read"
				}
			}
		}()
	}
	wg.Wait()
}

// s02Expiry: capacity of sessions that time out comes back.
func s02Expiry(c *Ctx, r *rand.Rand) {
	var wg sync.WaitGroup
	for _, diag := range []bool{false, true} {
		for _, how := range []string{"idle", "disconnected", "unactivated"} {
			wg.Add(1)
			go func(diag bool, how string) {
				defer wg.Done()
				const max = 3
				w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSessionCount(max), server.WithServerDiagnostics(diag)}})
				for i := 0; i < max; i++ {
					rc, err := w.Raw(raw.None, raw.ModeNone)
					if err != nil {
						c.Inconclusive("dial: %v", err)
						return
					}
					if _, err := rc.CreateSession("x", 10000); err != nil {
						c.Violate("create-failed", "CreateSession: %v", err)
						return
					}
					if how != "unactivated" {
						rc.ActivateAnonymous()
					}
					if how == "disconnected" {
						rc.Close()
					} else {
						defer rc.Close()
					}
				}
				last := time.Now()
				rc, err := w.Raw(raw.None, raw.ModeNone)
				if err != nil {
					c.Inconclusive("dial: %v", err)
					return
				}
				defer rc.Close()
				got := 0
				for time.Since(last) < 45*time.Second && got < max {
					call := time.Now()
					_, err := rc.CreateSession("y", 3600000)
					if err == nil {
						if call.Sub(last) < 0 || time.Since(last) < 10*time.Second-50*time.Millisecond {
							c.Violate("capacity-exceeded", "session created %v after %d sessions with timeout 10 s were opened, maximum %d", time.Since(last), max, max)
						}
						got++
						continue
					}
					time.Sleep(250 * time.Millisecond)
				}
				if got < max {
					c.Violate("capacity-lost", "45 s after %d sessions with a timeout of 10 s were left %s (diagnostics %v) only %d could be created", max, how, diag, got)
				} else {
					_, err := rc.CreateSession("z", 3600000)
					if err == nil {
						c.Violate("capacity-exceeded", "one session more than the maximum was created after expiry")
					}
				}
				c.Count("capacity regained by expiry", 1)
				c.Eval(fmt.Sprintf("expiry/%v/%s", diag, how))
			}(diag, how)
		}
	}
	wg.Wait()
}

// s02Close: closing with subscription deletion answers outstanding publish requests and removes the subscriptions.
func s02Close(c *Ctx, r *rand.Rand) {
	const maxSubs = 20
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(maxSubs)}})
	ns := w.ensureNS()
	v := w.addVar(VarSpec{ID: ua.NewNodeIDString(ns, "v"), Name: "v", DataType: ua.DataTypeIDInt32, Value: int32(0)})
	for i := 0; i < c.N(40, 200); i++ {
		rc, err := w.RawSession(raw.None, raw.ModeNone)
		if err != nil {
			c.Violate("close-session", "new session: %v", err)
			return
		}
		var subs []uint32
		nsub := 1 + r.Intn(4)
		if i%10 == 9 {
			nsub = maxSubs
		}
		for k := 0; k < nsub; k++ {
			res, err := rc.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(50 + r.Intn(2000)), RequestedMaxKeepAliveCount: uint32(1 + r.Intn(10)), RequestedLifetimeCount: 1000, PublishingEnabled: r.Intn(4) > 0})
			if err != nil {
				c.Violate("subscription-leak", "round %d: subscription %d of at most %d refused although all earlier sessions were closed with their subscriptions: %v", i, k+1, maxSubs, err)
				break
			}
			id := res.(*ua.CreateSubscriptionResponse).SubscriptionID
			subs = append(subs, id)
			if r.Intn(2) == 0 {
				rc.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: id, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: v.NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: 10, QueueSize: 2}}}})
			}
		}
		pend := map[uint32]string{}
		rc.Conn.SetDeadline(time.Now().Add(30 * time.Second))
		for k := r.Intn(10); k > 0; k-- {
			q := &ua.PublishRequest{}
			if r.Intn(6) == 0 {
				q.TimeoutHint = 3600000
			}
			id, err := rc.Send(q)
			if err != nil {
				c.Violate("close-channel", "publish: %v", err)
				return
			}
			pend[id] = "publish"
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
		}
		npub := len(pend)
		cid, err := rc.Send(&ua.CloseSessionRequest{DeleteSubscriptions: true})
		must(err)
		pend[cid] = "close"
		closedAt := time.Time{}
		for len(pend) > 0 {
			id, res, err := rc.Recv()
			if err != nil {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					c.Violate("publish-unanswered", "%d of %d publish requests outstanding when the session was closed were never answered", len(pend), npub)
				} else {
					c.Violate("close-channel", "channel ended while closing a session with %d outstanding publish requests: %v", npub, err)
				}
				break
			}
			what, ok := pend[id]
			if !ok {
				c.Violate("publish-answered-twice", "response %T for request %d that is not outstanding", res, id)
				break
			}
			delete(pend, id)
			if what == "close" {
				if res.Header().ServiceResult != ua.Good {
					c.Violate("close-failed", "CloseSession: %v", res.Header().ServiceResult)
				}
				closedAt = time.Now()
				for _, s := range subs {
					if _, ok := w.Srv.SubscriptionManager().Get(s); ok {
						c.Violate("subscription-survives", "subscription %d exists after its session was closed with DeleteSubscriptions", s)
					}
				}
				// shorten the wait for the rest
				rc.Conn.SetDeadline(time.Now().Add(10 * time.Second))
			}
		}
		_ = closedAt
		// nothing more arrives on this channel for the dead session
		if i%8 == 0 {
			rc.Conn.SetDeadline(time.Now().Add(400 * time.Millisecond))
			if id, res, err := rc.Recv(); err == nil {
				c.Violate("publish-after-close", "a %T for request %d arrived after the session was closed and all requests were answered", res, id)
			}
		}
		rc.Close()
		c.Eval(fmt.Sprintf("close/subs%d/pub%d", nsub, npub))
		c.Count("publish requests outstanding at close", npub)
	}
}
