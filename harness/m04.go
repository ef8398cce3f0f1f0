package main

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("M04", &check{run: runM04, minEvals: 3000, minDistinct: 300,
		rule: "every revised parameter set compared with the supported ranges, every subscription's message times and end compared with its revised interval, keep-alive and lifetime; distinct = distinct (parameter class) and (scenario, outcome) signatures"})
}

// m04Revise: revised parameters lie in the supported ranges and keep requests that do.
func m04Revise(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(50)}})
	defer w.Srv.Close()
	a := w.AC()
	defer a.Close()
	intervals := []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1, 124, 125, 126, 1000, 1500.5, 59999, 60000, 60001, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64}
	counts := []uint32{0, 1, 2, 3, 10, 79, 80, 81, 1000, 28800, 28801, 1 << 31, math.MaxUint32 / 3, math.MaxUint32 - 1, math.MaxUint32}
	gi := func() float64 {
		if r.Intn(2) == 0 {
			return intervals[r.Intn(len(intervals))]
		}
		return math.Exp(r.Float64()*12) + 50
	}
	gc := func() uint32 {
		if r.Intn(2) == 0 {
			return counts[r.Intn(len(counts))]
		}
		return uint32(math.Exp(r.Float64() * 12))
	}
	const minI, maxI, minL, maxL, maxK = 125.0, 60000.0, 10000.0, 3600000.0, 60000.0
	judge := func(what string, I float64, K, L uint32, ri float64, rk, rl uint32) {
		d := fmt.Sprintf("%s: requested interval %v keep-alive %d lifetime %d, revised %v %d %d", what, I, K, L, ri, rk, rl)
		if !(ri >= minI && ri <= maxI) {
			c.Violate("interval-range", "%s", d)
			return
		}
		want := I
		if math.IsNaN(I) || I < minI {
			want = minI
		} else if I > maxI {
			want = maxI
		}
		if ri != want {
			c.Violate("interval", "%s: expected %v", d, want)
		}
		if rk < 1 || float64(rk-1)*ri >= maxK+ri {
			c.Violate("keepalive-range", "%s", d)
		}
		if K > 0 && float64(K)*ri <= maxK && rk != K {
			c.Violate("keepalive", "%s", d)
		}
		if uint64(rl) < 3*uint64(rk) {
			c.Violate("lifetime-keepalive", "%s: the lifetime is less than three keep-alives", d)
		}
		if float64(rl)*ri < minL || (float64(rl-1)*ri > maxL) {
			c.Violate("lifetime-range", "%s", d)
		}
		if x := float64(L) * ri; x >= minL && x <= maxL && uint64(L) >= 3*uint64(rk) && rl != L {
			c.Violate("lifetime", "%s", d)
		}
		c.Eval(fmt.Sprintf("revise/%s/%v/%v/%v/%v/%v", what, ri == I, rk == K, rl == L, math.Round(math.Log2(ri)), math.Round(math.Log2(float64(rk)))))
	}
	for k := 0; k < c.N(1500, 12000); k++ {
		I, K, L := gi(), gc(), gc()
		res, err := a.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: I, RequestedLifetimeCount: L, RequestedMaxKeepAliveCount: K, MaxNotificationsPerPublish: uint32(r.Intn(3)), PublishingEnabled: true})
		if err != nil {
			c.Violate("create", "creating a subscription answered %v", err)
			return
		}
		s := res.(*ua.CreateSubscriptionResponse)
		judge("create", I, K, L, s.RevisedPublishingInterval, s.RevisedMaxKeepAliveCount, s.RevisedLifetimeCount)
		I, K, L = gi(), gc(), gc()
		res, err = a.Do(&ua.ModifySubscriptionRequest{SubscriptionID: s.SubscriptionID, RequestedPublishingInterval: I, RequestedLifetimeCount: L, RequestedMaxKeepAliveCount: K})
		if err != nil {
			c.Violate("modify", "modifying a subscription answered %v", err)
			return
		}
		m := res.(*ua.ModifySubscriptionResponse)
		judge("modify", I, K, L, m.RevisedPublishingInterval, m.RevisedMaxKeepAliveCount, m.RevisedLifetimeCount)
		// sampling interval and queue size
		si := gi()
		q := gc()
		x := a.createItems(s.SubscriptionID, ua.TimestampsToReturnBoth, valueItem(ua.VariableIDServerServerStatusState, 1, si, q, true, nil))[0]
		rev := func(what string, res ua.StatusCode, si float64, q uint32, rs float64, rq uint32) {
			if res != ua.Good {
				c.Violate("item", "%s with sampling interval %v and queue %d answered %v", what, si, q, res)
				return
			}
			want := si
			if si < 0 {
				want = m.RevisedPublishingInterval
			}
			if math.IsNaN(si) || want < 100 {
				want = 100
			}
			if want > 60000 {
				want = 60000
			}
			if rs != want {
				c.Violate("sampling", "%s: sampling interval %v revised to %v, expected %v", what, si, rs, want)
			}
			wq := min(max(q, 1), 1024)
			if rq != wq {
				c.Violate("queue", "%s: queue size %d revised to %d, expected %d", what, q, rq, wq)
			}
			c.Eval(fmt.Sprintf("item/%s/%v/%v", what, rs == si, rq == q))
		}
		rev("create item", x.StatusCode, si, q, x.RevisedSamplingInterval, x.RevisedQueueSize)
		si, q = gi(), gc()
		y, err := a.Do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: s.SubscriptionID, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: x.MonitoredItemID, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: si, QueueSize: q}}}})
		if err != nil {
			c.Violate("item", "modifying an item answered %v", err)
			return
		}
		z := y.(*ua.ModifyMonitoredItemsResponse).Results[0]
		rev("modify item", z.StatusCode, si, q, z.RevisedSamplingInterval, z.RevisedQueueSize)
		if _, err := a.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{s.SubscriptionID}}); err != nil {
			c.Violate("delete", "deleting a subscription answered %v", err)
			return
		}
	}
}

// slackUp bounds how late a timer may fire on a busy machine.
const slackUp = 2500 * time.Millisecond

// m04KeepAlive: silent subscriptions keep their rhythm, busy ones publish once per interval.
func m04KeepAlive(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(300), server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 }))}})
	defer w.Srv.Close()
	var wg sync.WaitGroup
	for k := 0; k < 30; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := w.AC()
			defer a.Close()
			p := newPublisher(a, 3)
			kind := k % 5
			created := time.Now()
			I := []float64{125, 125, 200, 333, 500}[rr.Intn(5)]
			K := uint32(1 + rr.Intn(6))
			// the first publish requests are there before the subscription when they can be
			s := a.createSub(I, 100000, K, 0, kind != 2, 0)
			I, K = s.RevisedPublishingInterval, s.RevisedMaxKeepAliveCount
			dur := time.Duration(c.N(9, 20)) * time.Second
			iv := time.Duration(I * 1e6)
			desc := fmt.Sprintf("interval %v keep-alive %d kind %d", iv, K, kind)
			var st *fStream
			if kind > 0 {
				// 1: silent item after its first value; 2: disabled publishing with changing item; 3: changes at every sample; 4: changes, modified on the way
				lo, hi := 1, 2
				if kind == 1 {
					lo, hi = 100000, 100001
				}
				st = w.newFStream(fmt.Sprintf("M04k.%d", k), ua.DataTypeIDInt64, -1, int64(0), counterGen(rand.New(rand.NewSource(rr.Int63())), lo, hi))
				a.createItems(s.SubscriptionID, ua.TimestampsToReturnServer, valueItem(st.node.NodeID(), 1, 20, 1, true, nil))
			}
			p.pump()
			start := time.Now()
			if kind == 4 {
				time.Sleep(dur / 2)
				res, err := a.Do(&ua.ModifySubscriptionRequest{SubscriptionID: s.SubscriptionID, RequestedPublishingInterval: 400, RequestedLifetimeCount: 100000, RequestedMaxKeepAliveCount: 2})
				if err != nil {
					c.Violate("modify", "modify: %v", err)
					return
				}
				iv = time.Duration(res.(*ua.ModifySubscriptionResponse).RevisedPublishingInterval * 1e6)
				K = 2
				n0 := len(p.Msgs())
				t0 := time.Now()
				time.Sleep(dur / 2)
				n := len(p.Msgs()) - n0
				limit := int(time.Since(t0)/iv) + 3
				if n > limit {
					c.Violate("too-often", "after a modification to %v %d messages in %v", iv, n, time.Since(t0))
				}
				if n < limit/2-2 {
					c.Violate("too-seldom", "after a modification to %v only %d messages in %v though the value changes", iv, n, time.Since(t0))
				}
				c.Eval(fmt.Sprintf("modified/%v", iv))
				p.Stop()
				return
			}
			time.Sleep(dur)
			end := time.Now()
			p.Stop()
			ms := p.Msgs()
			_ = created
			prev := start
			data := 0
			for i, m := range ms {
				nd := len(m.resp.NotificationMessage.NotificationData) > 0
				if nd {
					data++
				}
				if kind == 2 && nd {
					c.Violate("disabled-data", "a disabled subscription sent data")
				}
				gap := m.at.Sub(prev)
				if max := time.Duration(K)*iv + slackUp; gap > max {
					c.Violate("keepalive-late", "%v without a message (%s)", gap, desc)
				}
				_ = i
				prev = m.at
				c.Eval(fmt.Sprintf("msg/%d/%v/%d/%v", kind, nd, K, iv))
			}
			if gap := end.Sub(prev); gap > time.Duration(K)*iv+slackUp {
				c.Violate("keepalive-late", "%v without a message (%s)", gap, desc)
			}
			total := end.Sub(start)
			switch kind {
			case 0, 1, 2: // keep-alives only: not more often than the keep-alive count says
				limit := int(total/(time.Duration(K)*iv)) + 3 + data
				if len(ms) > limit {
					c.Violate("keepalive-often", "%d messages in %v, at most %d expected (%s)", len(ms), total, limit, desc)
				}
				if want := int(total*8/10/(time.Duration(K)*iv)) - 2; len(ms) < want {
					c.Violate("keepalive-seldom", "%d messages in %v, at least %d expected (%s)", len(ms), total, want, desc)
				}
				if kind == 1 && data != 1 {
					c.Violate("silent-data", "an item that never changes was reported %d times", data)
				}
			case 3:
				limit := int(total/iv) + 3
				if len(ms) > limit {
					c.Violate("too-often", "%d messages in %v, at most one per interval expected (%s)", len(ms), total, desc)
				}
				if data < limit/2-2 {
					c.Violate("too-seldom", "only %d messages with data in %v though the value changes all the time (%s)", data, total, desc)
				}
			}
			if kind == 2 {
				// enabling delivers what is queued
				before := len(p.Msgs())
				p.mu.Lock()
				p.stop = false
				p.mu.Unlock()
				p.pump()
				if _, err := a.Do(&ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{s.SubscriptionID}}); err != nil {
					c.Violate("enable", "SetPublishingMode: %v", err)
				}
				ok := false
				for i := 0; i < 150 && !ok; i++ {
					for _, m := range p.Msgs()[before:] {
						ok = ok || len(dataOf(m)) > 0
					}
					time.Sleep(20 * time.Millisecond)
				}
				if !ok {
					c.Violate("enable", "an enabled subscription sent no data within 3 s")
				}
				p.Stop()
			}
		}()
	}
	wg.Wait()
}

// m04Expiry: abandoned subscriptions end after their lifetime and not before.
func m04Expiry(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(1000), server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 }))}})
	defer w.Srv.Close()
	sm := w.Srv.SubscriptionManager()
	var wg sync.WaitGroup
	for k := 0; k < c.N(30, 60); k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(rr.Intn(500)) * time.Millisecond)
			a := w.AC()
			defer a.Close()
			kind := k % 6
			life := uint32(80 + rr.Intn(30))
			keep := uint32(1 + rr.Intn(5))
			s := a.createSub(125, life, keep, 0, rr.Intn(4) > 0, 0)
			life, keep = s.RevisedLifetimeCount, s.RevisedMaxKeepAliveCount
			iv := time.Duration(s.RevisedPublishingInterval * 1e6)
			L := time.Duration(life) * iv
			start := time.Now() // the lifetime starts no earlier than the last activity was requested
			var st *fStream
			if rr.Intn(2) == 0 {
				st = w.newFStream(fmt.Sprintf("M04e.%d", k), ua.DataTypeIDInt64, -1, int64(0), counterGen(rand.New(rand.NewSource(rr.Int63())), 1, 3))
				start = time.Now()
				a.createItems(s.SubscriptionID, ua.TimestampsToReturnServer, valueItem(st.node.NodeID(), 1, 20, 10, true, nil))
			}
			last := time.Now()
			touch := func(n int) bool {
				start = time.Now()
				var err error
				what := rr.Intn(5)
				switch what {
				case 0:
					_, err = a.Do(&ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{s.SubscriptionID}})
				case 1:
					_, err = a.Do(&ua.ModifySubscriptionRequest{SubscriptionID: s.SubscriptionID, RequestedPublishingInterval: 125, RequestedLifetimeCount: life, RequestedMaxKeepAliveCount: keep})
				case 2:
					_, err = a.Do(&ua.RepublishRequest{SubscriptionID: s.SubscriptionID, RetransmitSequenceNumber: 1})
					if err == ua.BadMessageNotAvailable {
						err = nil
					}
				case 3:
					_, err = a.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: s.SubscriptionID, ItemsToCreate: []ua.MonitoredItemCreateRequest{valueItem(ua.VariableIDServerServerStatusState, 2, 100000, 1, true, nil)}})
				case 4:
					_, err = a.Do(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}})
				}
				last = time.Now()
				if err != nil {
					c.Violate("alive", "operation %d on a live subscription (step %d) answered %v", what, n, err)
					return false
				}
				return true
			}
			closed := false
			silent := func(what string) {
				if st == nil {
					return
				}
				time.Sleep(300 * time.Millisecond)
				st.mu.Lock()
				n := len(st.reads)
				st.mu.Unlock()
				time.Sleep(300 * time.Millisecond)
				st.mu.Lock()
				m := len(st.reads)
				st.mu.Unlock()
				if m > n {
					c.Violate("sampling-on", "the items of a subscription are still sampled after %s", what)
				}
			}
			switch kind {
			case 1, 2: // activity keeps it alive
				n := c.N(2, 4)
				for i := 0; i < n; i++ {
					time.Sleep(L * 6 / 10)
					if !touch(i) {
						return
					}
				}
			case 3: // the session is closed but leaves the subscription
				if _, err := a.Do(&ua.CloseSessionRequest{DeleteSubscriptions: false}); err != nil {
					c.Violate("close", "CloseSession: %v", err)
				}
				closed = true
			case 4: // the connection is lost
				a.Close()
				closed = true
			case 5: // deleted, or the session is closed with its subscriptions
				if rr.Intn(2) == 0 {
					if _, err := a.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{s.SubscriptionID}}); err != nil {
						c.Violate("delete", "DeleteSubscriptions: %v", err)
					}
					silent("it was deleted")
				}
				if _, err := a.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}); err != nil {
					c.Violate("close", "CloseSession: %v", err)
				}
				if _, ok := sm.Get(s.SubscriptionID); ok {
					c.Violate("closed-alive", "a subscription is there after its session was closed with DeleteSubscriptions")
				}
				silent("its session was closed")
				c.Eval("expiry/closed")
				return
			}
			// it must be there until the lifetime is over
			for time.Since(start) < L*85/100 {
				at := time.Since(start)
				if _, ok := sm.Get(s.SubscriptionID); !ok && at < L*85/100 {
					c.Violate("expired-early", "a subscription with lifetime %v ended after %v (kind %d)", L, at, kind)
					return
				}
				time.Sleep(50 * time.Millisecond)
			}
			limit := L + time.Duration(keep)*iv + slackUp
			for {
				if _, ok := sm.Get(s.SubscriptionID); !ok {
					break
				}
				if time.Since(last) > limit {
					c.Violate("not-expired", "a subscription with lifetime %v and keep-alive %v is there %v after the last activity (kind %d)", L, time.Duration(keep)*iv, time.Since(last), kind)
					return
				}
				time.Sleep(50 * time.Millisecond)
			}
			c.Count("expired", 1)
			c.Eval(fmt.Sprintf("expiry/%d/%d/%v/%d", kind, keep, st != nil, life/5))
			silent("it expired")
			if closed {
				return
			}
			// a later publish learns of it, and the subscription cannot be used
			got := false
			for i := 0; i < 3 && !got; i++ {
				ch := make(chan acRes, 1)
				a.Go(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}}, func(r acRes) { ch <- r })
				select {
				case r := <-ch:
					if r.err != nil {
						c.Violate("expired-publish", "publish after the subscription expired answered %v", r.err)
						return
					}
					p := r.res.(*ua.PublishResponse)
					for _, x := range p.NotificationMessage.NotificationData {
						if n, ok := x.(ua.StatusChangeNotification); ok && p.SubscriptionID == s.SubscriptionID && n.Status == ua.BadTimeout {
							got = true
						}
					}
				case <-time.After(5 * time.Second):
					i = 3
				}
			}
			if !got {
				c.Violate("no-status-change", "no status change notification for an expired subscription")
			}
			if _, err := a.Do(&ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{s.SubscriptionID}}); err == nil {
				res, _ := a.Do(&ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{s.SubscriptionID}})
				if x := res.(*ua.SetPublishingModeResponse).Results[0]; x != ua.BadSubscriptionIDInvalid {
					c.Violate("expired-usable", "an expired subscription answers %v", x)
				}
			}
		}()
	}
	// one session abandons many subscriptions at once
	wg.Add(1)
	go func() {
		defer wg.Done()
		a := w.AC()
		var ids []uint32
		for i := 0; i < 90; i++ {
			ids = append(ids, a.createSub(125, 80, 2, 0, true, 0).SubscriptionID)
		}
		if r.Intn(2) == 0 {
			a.Do(&ua.CloseSessionRequest{DeleteSubscriptions: false})
		}
		a.Close()
		time.Sleep(10*time.Second + 250*time.Millisecond + slackUp + 500*time.Millisecond)
		n := 0
		for _, id := range ids {
			if _, ok := sm.Get(id); ok {
				n++
			}
		}
		if n > 0 {
			c.Violate("not-expired-many", "%d of %d subscriptions of an abandoned session did not end with their lifetime", n, len(ids))
		}
		c.Eval("expiry/many")
	}()
	wg.Wait()
}

// m04Limit: the maximum number of subscriptions holds for concurrent creators, and ended ones make room.
func m04Limit(c *Ctx, r *rand.Rand) {
	max := 5 + r.Intn(20)
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithMaxSubscriptionCount(uint32(max))}})
	defer w.Srv.Close()
	var mu sync.Mutex
	var spans []span
	var refused, made atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := w.AC()
			type own struct {
				id uint32
				at time.Time
			}
			var mine []own
			for i := 0; i < c.N(120, 600); i++ {
				if rr.Intn(5) < 3 {
					res, err := a.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 10})
					at := time.Now()
					switch {
					case err == nil:
						mine = append(mine, own{res.(*ua.CreateSubscriptionResponse).SubscriptionID, at})
						made.Add(1)
					case err == ua.BadTooManySubscriptions:
						refused.Add(1)
					default:
						c.Violate("create", "creating a subscription answered %v", err)
						return
					}
				} else if len(mine) > 0 {
					j := rr.Intn(len(mine))
					end := time.Now()
					_, err := a.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{mine[j].id}})
					if err != nil {
						c.Violate("delete", "deleting a subscription answered %v", err)
						return
					}
					mu.Lock()
					spans = append(spans, span{mine[j].at, end})
					mu.Unlock()
					mine = append(mine[:j], mine[j+1:]...)
				}
				c.Eval(fmt.Sprintf("limit/%d/%d", max, len(mine)))
			}
			end := time.Now()
			mu.Lock()
			for _, m := range mine {
				spans = append(spans, span{m.at, end})
			}
			mu.Unlock()
			a.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true})
			a.Close()
		}()
	}
	wg.Wait()
	if n := maxOverlap(spans); n > max {
		c.Violate("limit", "%d subscriptions at the same time, the maximum is %d", n, max)
	}
	c.Count("refused", int(refused.Load()))
	// everything is free again
	rc, err := w.RawSession(raw.None, 0)
	must(err)
	a := newAC(rc)
	defer a.Close()
	for i := 0; i <= max; i++ {
		_, err := a.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000})
		if i < max && err != nil {
			c.Violate("limit-leak", "after all subscriptions were deleted only %d of %d can be created: %v", i, max, err)
			break
		}
		if i == max && err != ua.BadTooManySubscriptions {
			c.Violate("limit", "subscription %d of at most %d answered %v", i+1, max, err)
		}
	}
}

func runM04(c *Ctx) {
	r := c.Rng("m04")
	for k := 0; k < c.N(1, 5) && !c.Violated(); k++ {
		var wg sync.WaitGroup
		for _, f := range []func(*Ctx, *rand.Rand){m04Revise, m04KeepAlive, m04Expiry, m04Limit} {
			f := f
			r2 := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() { defer wg.Done(); f(c, r2) }()
		}
		wg.Wait()
	}
}
