package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("M01", &check{run: runM01, minEvals: 3000, minDistinct: 300,
		rule: "every delivered value matched against the log of sampled (or written) values of its variable, every undelivered one explained by the sampling interval or by a marked overflow; distinct = distinct (queue size, policy, limits, batch size, marks, loss) per message and item"})
}

const margin = 15 * time.Millisecond

const ovf = ua.StatusCode(ua.InfoTypeDataValue | ua.Overflow)

// run is a maximal sequence of samples with the same value.
type sRun struct {
	v     ua.DataValue
	times []time.Time // server timestamps of the samples
}

// stream is a variable whose value is produced by a handler, so that every sample is known.
type stream struct {
	node   *server.VariableNode
	mu     sync.Mutex
	runs   []*sRun
	left   int
	frozen bool
	gen    func(i int) (ua.Variant, ua.StatusCode, int) // value, status, samples to hold
	stamp  time.Time
}

func (s *stream) read(_ *server.Session, _ ua.ReadValueID) ua.DataValue {
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Now().UTC().Round(0)
	if len(s.runs) == 0 || (s.left <= 0 && !s.frozen) {
		v, st, hold := s.gen(len(s.runs))
		s.left = hold
		s.runs = append(s.runs, &sRun{v: ua.NewDataValue(v, st, now, 0, now, 0)})
	}
	s.left--
	r := s.runs[len(s.runs)-1]
	r.times = append(r.times, now)
	dv := r.v
	dv.ServerTimestamp = now
	return dv
}

func (w *World) newStream(name string, dt ua.NodeID, rank int32, zero ua.Variant, gen func(i int) (ua.Variant, ua.StatusCode, int)) *stream {
	s := &stream{gen: gen}
	s.node = w.addVar(VarSpec{Name: name, Value: zero, DataType: dt, Rank: rank})
	s.node.SetReadValueHandler(s.read)
	return s
}

type m01Item struct {
	h       uint32
	st      *stream
	ti      time.Duration
	queue   uint32
	oldest  bool
	ts      ua.TimestampsToReturn
	limited bool
	sub     uint32
	got     []m01Got
}

type m01Got struct {
	v   ua.DataValue
	msg int // index of message
	tn  time.Time
	pos int
	cnt int
}

func tick100(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano() / 100
}

// judge compares the deliveries of an item with the samples of its variable.
func (it *m01Item) judge(c *Ctx, msgTimes []time.Time) {
	it.st.mu.Lock()
	defer it.st.mu.Unlock()
	runs := it.st.runs
	bad := func(key, f string, a ...any) {
		c.Violate(key, "%s (item %d: sampling %v queue %d discardOldest %v limited %v, %d runs, %d delivered)", fmt.Sprintf(f, a...), it.h, it.ti, it.queue, it.oldest, it.limited, len(runs), len(it.got))
	}
	prev := -1
	for i, g := range it.got {
		v, ok := g.v.Value.(int64)
		if !ok || v < 0 || int(v) >= len(runs) {
			bad("invented", "delivered %v, which the variable never had", g.v)
			return
		}
		r := runs[v]
		st := g.v.StatusCode
		marked := st&ovf == ovf
		if st&^ovf != r.v.StatusCode {
			bad("status", "value %d delivered with status %x, sampled with %x", v, uint32(st), uint32(r.v.StatusCode))
		}
		// timestamps
		wantSrc, wantSrv := it.ts == ua.TimestampsToReturnSource || it.ts == ua.TimestampsToReturnBoth, it.ts == ua.TimestampsToReturnServer || it.ts == ua.TimestampsToReturnBoth
		if wantSrc && tick100(g.v.SourceTimestamp) != tick100(r.v.SourceTimestamp) || !wantSrc && !g.v.SourceTimestamp.IsZero() {
			bad("source-timestamp", "value %d delivered with source timestamp %v, sampled with %v (selection %v)", v, g.v.SourceTimestamp, r.v.SourceTimestamp, it.ts)
		}
		if wantSrv {
			found := false
			for _, t := range r.times {
				found = found || tick100(t) == tick100(g.v.ServerTimestamp)
			}
			if !found {
				bad("server-timestamp", "value %d delivered with server timestamp %v of no sample", v, g.v.ServerTimestamp)
			}
		} else if !g.v.ServerTimestamp.IsZero() {
			bad("server-timestamp", "value %d delivered with a server timestamp that was not requested", v)
		}
		if int(v) <= prev {
			key := "order"
			if int(v) == prev {
				key = "duplicate"
			}
			bad(key, "value %d delivered after %d", v, prev)
			return
		}
		// losses
		lost := 0
		for j := prev + 1; j < int(v); j++ {
			// a value counts as sampled by the specification's grid when it was held for a sampling interval (and some margin for the scheduler)
			must := runs[j+1].times[0].Sub(runs[j].times[0]) >= it.ti+margin
			if !must {
				continue
			}
			lost++
			if it.queue > 1 && !marked {
				bad("unmarked-loss", "value %d (held %v) was not delivered before %d, which carries no overflow mark", j, runs[j+1].times[0].Sub(runs[j].times[0]), v)
				break
			}
			if !it.limited {
				// a message sent while j was the newest value must contain it
				k := sort.Search(len(msgTimes), func(k int) bool { return !msgTimes[k].Before(runs[j].times[0].Add(it.ti + margin)) })
				if k < len(msgTimes) && msgTimes[k].Before(runs[j+1].times[0]) && msgTimes[k].Before(g.tn) {
					bad("newest-lost", "value %d was the newest at the publishing time %v but was not delivered", j, msgTimes[k])
				}
			}
		}
		if marked && int(v) == prev+1 {
			bad("false-mark", "value %d carries an overflow mark though nothing was lost before it", v)
		}
		if marked && it.queue == 1 {
			bad("false-mark", "value %d of a queue of size 1 carries an overflow mark", v)
		}
		if !it.limited {
			if g.cnt > int(it.queue) {
				bad("queue-size", "%d values in one message, revised queue size %d", g.cnt, it.queue)
			}
			if marked && (g.cnt != int(it.queue) || it.oldest && g.pos != 0 || !it.oldest && g.pos != g.cnt-1) {
				bad("mark-position", "overflow mark at position %d of %d values", g.pos, g.cnt)
			}
		}
		sig := fmt.Sprintf("%d/%v/%v/%d/%d/%v/%v", it.queue, it.oldest, it.limited, g.cnt, g.pos, marked, lost > 0)
		c.Eval(sig)
		if marked {
			c.Count("marked", 1)
		}
		if i == 0 {
			c.Count("items", 1)
		}
		prev = int(v)
	}
	if prev != len(runs)-1 {
		bad("final", "last delivered value %d, current value is %d", prev, len(runs)-1)
	}
}

func m01Streams(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 })), server.WithMaxSubscriptionCount(200)}})
	defer w.Srv.Close()
	type sess struct {
		a  *AC
		p  *Publisher
		it map[uint32]*m01Item
	}
	var all []*sess
	h := uint32(0)
	for k := 0; k < 4; k++ {
		s := &sess{a: w.AC(), it: map[uint32]*m01Item{}}
		s.p = newPublisher(s.a, 1+r.Intn(5))
		all = append(all, s)
		for j := 0; j < 4; j++ {
			maxN, pi := uint32(0), []float64{125, 125, 200, 400, 900}[r.Intn(5)]
			if r.Intn(3) == 0 {
				// what waits in the queues must drain within the final wait: 12 items, queue at most 5
				maxN, pi = uint32(3+r.Intn(30)), 125
			}
			sub := s.a.createSub(pi, 10000, 3+uint32(r.Intn(5)), maxN, true, byte(r.Intn(3)))
			for i := 0; i < 12; i++ {
				rr := rand.New(rand.NewSource(r.Int63()))
				style := r.Intn(4)
				st := w.newStream(fmt.Sprintf("M01.%d.%d", round, h), ua.DataTypeIDInt64, 0, int64(0), func(i int) (ua.Variant, ua.StatusCode, int) {
					status := ua.Good
					if rr.Intn(8) == 0 {
						status = []ua.StatusCode{ua.UncertainSubNormal, ua.UncertainLastUsableValue, ua.GoodLocalOverride, ua.BadSensorFailure}[rr.Intn(4)]
					}
					hold := 1
					switch style {
					case 1:
						hold = 1 + rr.Intn(4)
					case 2:
						if rr.Intn(10) == 0 {
							hold = 20
						}
					case 3:
						hold = 3 + rr.Intn(10)
					}
					return int64(i), status, hold
				})
				it := &m01Item{h: h, st: st, oldest: r.Intn(2) == 0, ts: ua.TimestampsToReturn(r.Intn(4)), limited: maxN > 0, sub: sub.SubscriptionID}
				q := []uint32{0, 1, 2, 3, 5, 10, 100, 5000}[r.Intn(8)]
				if it.limited {
					q = uint32(r.Intn(6))
				}
				iv := []float64{0, 20, 25, 50, 100, 250, -1}[r.Intn(7)]
				res := s.a.createItems(it.sub, it.ts, valueItem(st.node.NodeID(), h, iv, q, it.oldest, nil))[0]
				if res.StatusCode != ua.Good {
					c.Violate("create", "creating a monitored item answered %v", res.StatusCode)
					return
				}
				it.queue, it.ti = res.RevisedQueueSize, time.Duration(res.RevisedSamplingInterval*1e6)
				wantIv := iv
				if iv < 0 {
					wantIv = sub.RevisedPublishingInterval
				}
				if wantIv < 20 {
					wantIv = 20
				}
				if res.RevisedSamplingInterval != wantIv {
					c.Violate("revised-sampling", "sampling interval %v revised to %v", iv, res.RevisedSamplingInterval)
				}
				s.it[h] = it
				h++
			}
		}
	}
	for _, s := range all {
		s.p.pump()
	}
	end := time.Now().Add(time.Duration(c.N(12, 40)) * time.Second)
	var wg sync.WaitGroup
	for _, s := range all {
		s := s
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				s.p.Want([]int{0, 1, 2, 4, 8, 20}[rr.Intn(6)])
				if rr.Intn(8) == 0 {
					s.p.Want(0)
					time.Sleep(time.Duration(rr.Intn(5)) * time.Second)
				}
				time.Sleep(time.Duration(50+rr.Intn(1500)) * time.Millisecond)
			}
			s.p.Want(8)
		}()
	}
	wg.Wait()
	for _, s := range all {
		for _, it := range s.it {
			it.st.mu.Lock()
			it.st.frozen = true
			it.st.mu.Unlock()
		}
	}
	// wait until every final value has arrived
	deadline := time.Now().Add(25 * time.Second)
	for time.Now().Before(deadline) {
		ok := true
		for _, s := range all {
			last := map[uint32]int64{}
			for _, m := range s.p.Msgs() {
				for _, n := range dataOf(m) {
					last[n.ClientHandle], _ = n.Value.Value.(int64)
				}
			}
			for h, it := range s.it {
				it.st.mu.Lock()
				if v, seen := last[h]; !seen || int(v) != len(it.st.runs)-1 {
					ok = false
				}
				it.st.mu.Unlock()
			}
		}
		if ok {
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	time.Sleep(500 * time.Millisecond)
	for _, s := range all {
		s.p.Stop()
		msgs := s.p.Msgs()
		times := map[uint32][]time.Time{}
		for i, m := range msgs {
			d := dataOf(m)
			if len(d) == 0 {
				continue
			}
			tn := m.resp.NotificationMessage.PublishTime
			times[m.sub] = append(times[m.sub], tn)
			cnt := map[uint32]int{}
			for _, n := range d {
				cnt[n.ClientHandle]++
			}
			pos := map[uint32]int{}
			for _, n := range d {
				it := s.it[n.ClientHandle]
				if it == nil || it.sub != m.sub {
					c.Violate("wrong-subscription", "notification for handle %d in subscription %d", n.ClientHandle, m.sub)
					continue
				}
				it.got = append(it.got, m01Got{n.Value, i, tn, pos[n.ClientHandle], cnt[n.ClientHandle]})
				pos[n.ClientHandle]++
			}
			c.Count("messages", 1)
		}
		for _, it := range s.it {
			ts := times[it.sub]
			sort.Slice(ts, func(i, j int) bool { return ts[i].Before(ts[j]) })
			it.judge(c, ts)
		}
		s.a.Close()
	}
}

// m01Writers: stored variables changed by several writers, monitored many times over.
func m01Writers(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 }))}})
	defer w.Srv.Close()
	type wvar struct {
		node *server.VariableNode
		mu   sync.Mutex
		next int64
		cur  int64
		lib  bool
	}
	var vars []*wvar
	for i := 0; i < 16; i++ {
		v := &wvar{}
		v.node = w.addVar(VarSpec{Name: fmt.Sprintf("M01w.%d", i), Value: int64(0), DataType: ua.DataTypeIDInt64})
		vars = append(vars, v)
	}
	type item struct {
		v      *wvar
		lo     int64
		last   int64
		n      int
		first  int64
		queue  uint32
		oldest bool
	}
	var stop atomic.Bool
	var wg, pwg sync.WaitGroup
	// writers
	for k := 0; k < 3; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			var rc *raw.Client
			if k > 0 {
				var err error
				rc, err = w.RawSession(raw.None, 0)
				must(err)
				defer rc.Close()
			}
			for !stop.Load() {
				v := vars[rr.Intn(len(vars))]
				v.mu.Lock()
				v.next++
				x := v.next
				if rc != nil {
					res, err := rc.Do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: v.node.NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(x, 0, time.Time{}, 0, time.Time{}, 0)}}})
					must(err)
					if st := res.(*ua.WriteResponse).Results[0]; st != ua.Good {
						panic(st)
					}
				} else {
					v.node.SetValue(ua.NewDataValue(x, ua.Good, time.Now(), 0, time.Now(), 0))
				}
				atomic.StoreInt64(&v.cur, x)
				v.mu.Unlock()
				if rr.Intn(3) > 0 {
					time.Sleep(time.Duration(rr.Intn(8000)) * time.Microsecond)
				}
				if rr.Intn(100) == 0 {
					time.Sleep(time.Duration(rr.Intn(500)) * time.Millisecond)
				}
			}
		}()
	}
	var fin sync.WaitGroup
	done := make(chan struct{})
	for k := 0; k < 6; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		a := w.AC()
		p := newPublisher(a, 1+rr.Intn(4))
		items := map[uint32]*item{}
		var imu sync.Mutex
		p.on = func(m pubMsg) {
			for _, n := range dataOf(m) {
				imu.Lock()
				it := items[n.ClientHandle]
				if it == nil {
					c.Violate("unknown-handle", "notification for handle %d", n.ClientHandle)
					imu.Unlock()
					continue
				}
				x, ok := n.Value.Value.(int64)
				hi := atomic.LoadInt64(&it.v.cur) + 1
				switch {
				case !ok || n.Value.StatusCode&^ovf != ua.Good || x > hi:
					c.Violate("invented", "delivered %v, highest value written %d", n.Value, hi)
				case it.n > 0 && x <= it.last:
					c.Violate("order", "delivered %d after %d", x, it.last)
				case it.n == 0 && x < it.lo:
					c.Violate("stale-first", "first delivered value %d, but the value was already %d when the item was requested", x, it.lo)
				}
				if it.n == 0 {
					it.first = x
				}
				it.n++
				it.last = x
				c.Eval(fmt.Sprintf("w/%d/%v/%d", it.queue, it.oldest, min(it.n, 50)))
				imu.Unlock()
			}
		}
		pwg.Add(1)
		fin.Add(1)
		go func() {
			defer pwg.Done()
			h := uint32(0)
			var subs []uint32
			for j := 0; j < 3; j++ {
				subs = append(subs, a.createSub([]float64{125, 150, 300}[rr.Intn(3)], 10000, 3, uint32(rr.Intn(3)*20), true, 0).SubscriptionID)
			}
			p.pump()
			for j := 0; j < 30; j++ {
				it := &item{v: vars[rr.Intn(len(vars))], queue: uint32(1 + rr.Intn(4)), oldest: rr.Intn(2) == 0}
				imu.Lock()
				h++
				items[h] = it
				it.lo = atomic.LoadInt64(&it.v.cur)
				hh := h
				imu.Unlock()
				res := a.createItems(subs[rr.Intn(len(subs))], ua.TimestampsToReturnBoth, valueItem(it.v.node.NodeID(), hh, float64(rr.Intn(200)), it.queue, it.oldest, nil))
				if res[0].StatusCode != ua.Good {
					c.Violate("create", "creating a monitored item answered %v", res[0].StatusCode)
				}
				if rr.Intn(4) == 0 {
					time.Sleep(time.Duration(rr.Intn(300)) * time.Millisecond)
				}
			}
		}()
		go func() {
			defer fin.Done()
			<-done
			deadline := time.Now().Add(25 * time.Second)
			for {
				var miss *item
				imu.Lock()
				for _, it := range items {
					if it.n == 0 || it.last != atomic.LoadInt64(&it.v.cur) {
						miss = it
					}
				}
				imu.Unlock()
				if miss == nil {
					break
				}
				if time.Now().After(deadline) {
					c.Violate("final", "25 s after the last write an item delivered %d values, the last %d, but the value is %d", miss.n, miss.last, miss.v.cur)
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			time.Sleep(300 * time.Millisecond)
			p.Stop()
			a.Close()
		}()
	}
	pwg.Wait()
	time.Sleep(time.Duration(c.N(6, 25)) * time.Second)
	stop.Store(true)
	wg.Wait()
	close(done)
	fin.Wait()
}

func runM01(c *Ctx) {
	r := c.Rng("m01")
	var wg sync.WaitGroup
	for k := 0; k < c.N(2, 8) && !c.Violated(); k++ {
		r2 := rand.New(rand.NewSource(r.Int63()))
		r3 := rand.New(rand.NewSource(r.Int63()))
		wg.Add(2)
		go func() { defer wg.Done(); m01Streams(c, r2, k) }()
		go func() { defer wg.Done(); m01Writers(c, r3, k) }()
		wg.Wait()
	}
}
