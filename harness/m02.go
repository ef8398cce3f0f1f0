package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("M02", &check{run: runM02, minEvals: 3000, minDistinct: 300,
		rule: "every publish and republish answer judged by a per-subscription model of numbers, acknowledgements and the available set, and every operation on a foreign subscription judged refused; distinct = distinct (kind, model state class) signatures"})
}

// m02Sub is the client's model of one of its subscriptions.
type m02Sub struct {
	id    uint32
	maxN  uint32
	next  uint32                            // next expected number
	got   map[uint32]ua.NotificationMessage // received or republished
	acked map[uint32]bool                   // acknowledgement sent
	done  map[uint32]bool                   // acknowledgement confirmed
	gone  bool
	items map[uint32]*m01Item
	ids   []uint32
	early map[uint32]ua.NotificationMessage // republished before it was received
	limit int                               // messages that must stay available
	miss  map[uint32]bool
}

type m02Sess struct {
	c     *Ctx
	w     *World
	r     *rand.Rand
	mu    sync.Mutex
	a     *AC
	subs  map[uint32]*m02Sub
	out   int
	dead  map[uint32]bool // deleted subscriptions
	resp  int64
	drop  int
	stale int // requests lost in dropped connections whose answers may have carried messages
	name  string
}

const m02Keep = 100

func (s *m02Sess) bad(key, f string, a ...any) {
	s.c.Violate(key, "%s: %s", s.name, fmt.Sprintf(f, a...))
}

func sameMsg(a, b ua.NotificationMessage) bool {
	x, e1 := raw.Encode(&ua.RepublishResponse{NotificationMessage: a})
	y, e2 := raw.Encode(&ua.RepublishResponse{NotificationMessage: b})
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

// publish sends a publish request with random acknowledgements.
func (s *m02Sess) publish(foreign []uint32) {
	s.mu.Lock()
	defer s.mu.Unlock()
	req := &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 600000}}
	var want []ua.StatusCode
	var what []*m02Sub
	add := func(sub, seq uint32, st ua.StatusCode, m *m02Sub) {
		req.SubscriptionAcknowledgements = append(req.SubscriptionAcknowledgements, ua.SubscriptionAcknowledgement{SubscriptionID: sub, SequenceNumber: seq})
		want = append(want, st)
		what = append(what, m)
	}
	for _, m := range s.subs {
		seqs := make([]uint32, 0, len(m.got))
		for q := range m.got {
			if !m.acked[q] {
				seqs = append(seqs, q)
			}
		}
		sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
		s.r.Shuffle(len(seqs), func(i, j int) {
			if s.r.Intn(3) == 0 {
				seqs[i], seqs[j] = seqs[j], seqs[i]
			}
		})
		for _, q := range seqs {
			if int(m.next-q) > m.limit {
				continue // may have been discarded
			}
			if s.r.Intn(4) > 0 && m.limit < 1000 {
				continue
			}
			m.acked[q] = true
			add(m.id, q, ua.Good, m)
			if s.r.Intn(8) == 0 {
				add(m.id, q, ua.BadSequenceNumberUnknown, nil)
			}
		}
		if s.r.Intn(4) == 0 && len(m.acked) > 0 {
			for q := range m.acked {
				if m.done[q] || s.r.Intn(2) == 0 {
					add(m.id, q, ua.BadSequenceNumberUnknown, nil)
					break
				}
			}
		}
		if s.r.Intn(6) == 0 {
			add(m.id, []uint32{0, m.next + 100000, 0xFFFFFFFF}[s.r.Intn(3)], ua.BadSequenceNumberUnknown, nil)
		}
	}
	if len(foreign) > 0 && s.r.Intn(3) == 0 {
		add(foreign[s.r.Intn(len(foreign))], uint32(1+s.r.Intn(5)), ua.BadSubscriptionIDInvalid, nil)
	}
	if s.r.Intn(6) == 0 {
		add([]uint32{0, 0xFFFFFFFF, 4000000000}[s.r.Intn(3)], 1, ua.BadSubscriptionIDInvalid, nil)
	}
	for d := range s.dead {
		if s.r.Intn(6) == 0 {
			add(d, 1, ua.BadSubscriptionIDInvalid, nil)
		}
	}
	a := s.a
	drop := s.drop
	s.out++
	var n atomic.Int32
	err := a.Go(req, func(r acRes) {
		if n.Add(1) > 1 {
			s.bad("answered-twice", "a publish request was answered twice")
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if drop == s.drop {
			s.out--
		}
		if r.err != nil {
			if sc, ok := r.err.(ua.StatusCode); ok {
				switch sc {
				case ua.BadNoSubscription, ua.BadTooManyPublishRequests, ua.BadSessionClosed:
				default:
					s.bad("publish-fault", "publish answered with %v", sc)
				}
				s.c.Eval("fault/" + sc.Error())
			}
			return
		}
		s.got(req, want, what, r.res.(*ua.PublishResponse))
	})
	if err != nil {
		s.out--
	}
}

// got judges a publish response; s.mu is held.
func (s *m02Sess) got(req *ua.PublishRequest, want []ua.StatusCode, what []*m02Sub, p *ua.PublishResponse) {
	s.resp++
	nm := p.NotificationMessage
	if p.RequestHandle != req.RequestHandle {
		s.bad("handle", "response carries request handle %d, request had %d", p.RequestHandle, req.RequestHandle)
	}
	if len(p.Results) != len(want) {
		s.bad("ack-results", "%d acknowledgements answered with %d results", len(want), len(p.Results))
	} else {
		for i, st := range want {
			ack := req.SubscriptionAcknowledgements[i]
			if p.Results[i] != st {
				s.bad("ack-result", "acknowledging message %d of subscription %d answered %v, expected %v", ack.SequenceNumber, ack.SubscriptionID, p.Results[i], st)
			}
			if m := what[i]; m != nil {
				m.done[ack.SequenceNumber] = true
				s.c.Count("acknowledged", 1)
			}
			s.c.Eval(fmt.Sprintf("ack/%v/%d/%d", st, min(i, 12), min(len(want), 30)))
		}
	}
	m := s.subs[p.SubscriptionID]
	if m == nil {
		if s.dead[p.SubscriptionID] {
			s.bad("after-delete", "message %d of subscription %d after it was deleted", nm.SequenceNumber, p.SubscriptionID)
		} else {
			s.bad("foreign-message", "message of subscription %d, which is not one of this session", p.SubscriptionID)
		}
		return
	}
	keep := len(nm.NotificationData) == 0
	seq := nm.SequenceNumber
	switch {
	case seq == m.next:
	case s.stale > 0 && seq > m.next && int(seq-m.next) <= s.stale:
		// answers to requests that were outstanding when the connection dropped
		s.stale -= int(seq - m.next)
		for q := m.next; q < seq; q++ {
			m.miss[q] = true
		}
		s.c.Count("numbers missed in dropped connections", int(seq-m.next))
	default:
		s.bad("sequence", "subscription %d sent number %d (keep-alive %v), expected %d", m.id, seq, keep, m.next)
	}
	if keep {
		m.next = seq
		if p.MoreNotifications {
			s.bad("keepalive-more", "keep-alive announces more notifications")
		}
	} else {
		m.next = seq + 1
		if e, ok := m.early[seq]; ok && !sameMsg(e, nm) {
			s.bad("republish-differs", "message %d of subscription %d differs from what was republished before", seq, m.id)
		}
		m.got[seq] = nm
		n := 0
		for _, x := range nm.NotificationData {
			switch d := x.(type) {
			case ua.DataChangeNotification:
				n += len(d.MonitoredItems)
				for _, it := range d.MonitoredItems {
					if m.items[it.ClientHandle] == nil {
						s.bad("foreign-item", "subscription %d reports handle %d", m.id, it.ClientHandle)
					}
				}
			default:
				s.bad("notification-type", "unexpected %T", x)
			}
		}
		if m.maxN > 0 && n > int(m.maxN) {
			s.bad("max-notifications", "%d notifications in one message, limit %d", n, m.maxN)
		}
		if n == 0 {
			s.bad("empty-message", "message %d of subscription %d has notification data without notifications", seq, m.id)
		}
	}
	// available numbers
	av := map[uint32]bool{}
	last := uint32(0)
	for _, q := range p.AvailableSequenceNumbers {
		if q <= last || q >= m.next {
			s.bad("available", "available numbers %v with message %d (keep-alive %v)", p.AvailableSequenceNumbers, seq, keep)
			break
		}
		if m.done[q] {
			s.bad("available-acked", "number %d of subscription %d is available though its acknowledgement was confirmed", q, m.id)
		}
		last = q
		av[q] = true
	}
	lo := uint32(1)
	if m.next > m02Keep {
		lo = m.next - m02Keep
	}
	for q := lo; q < m.next; q++ {
		if !m.acked[q] && !av[q] {
			s.bad("not-available", "message %d of subscription %d was not acknowledged but is not available any more (next %d, available %v)", q, m.id, m.next, p.AvailableSequenceNumbers)
			break
		}
	}
	s.c.Eval(fmt.Sprintf("pub/%v/%d/%d/%v/%d", keep, min(len(av), 40), min(len(nm.NotificationData), 3), p.MoreNotifications, len(m.miss)))
}

// republish asks for a message and judges the answer.
func (s *m02Sess) republish(m *m02Sub, seq uint32) {
	s.mu.Lock()
	if m.gone {
		s.mu.Unlock()
		return
	}
	ch := make(chan acRes, 1)
	known, have := m.got[seq]
	acked := m.acked[seq]
	missing := m.miss[seq]
	inLimit := seq < m.next && int(m.next-seq) < m02Keep-10
	a := s.a
	err := a.Go(&ua.RepublishRequest{SubscriptionID: m.id, RetransmitSequenceNumber: seq}, func(r acRes) { ch <- r })
	s.mu.Unlock()
	if err != nil {
		return
	}
	var r acRes
	select {
	case r = <-ch:
	case <-time.After(60 * time.Second):
		s.bad("unanswered", "republish not answered within 60 s")
		return
	}
	if r.err == errACClosed {
		return
	}
	s.c.Eval(fmt.Sprintf("republish/%v/%v/%v/%v/%v", have, acked, missing, inLimit, r.err))
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case r.err == nil:
		nm := r.res.(*ua.RepublishResponse).NotificationMessage
		if acked {
			s.bad("republish-acked", "message %d of subscription %d was republished after its acknowledgement", seq, m.id)
		}
		if nm.SequenceNumber != seq {
			s.bad("republish-number", "asked for message %d, got %d", seq, nm.SequenceNumber)
			return
		}
		if have && !sameMsg(known, nm) {
			s.bad("republish-differs", "message %d of subscription %d republished with different content", seq, m.id)
		}
		if !have {
			if missing {
				m.got[seq] = nm
				delete(m.miss, seq)
				s.c.Count("messages recovered by republishing", 1)
			} else if g, ok := m.got[seq]; ok {
				if !sameMsg(g, nm) {
					s.bad("republish-differs", "message %d of subscription %d republished with different content", seq, m.id)
				}
			} else {
				if seq == 0 || seq > m.next+1000 {
					s.bad("republish-invented", "message %d of subscription %d was republished, next number is %d", seq, m.id, m.next)
				}
				m.early[seq] = nm
			}
		}
	case r.err == ua.BadMessageNotAvailable:
		if (have || missing) && !acked && inLimit {
			s.bad("republish-lost", "message %d of subscription %d is not available though it was not acknowledged (next %d)", seq, m.id, m.next)
		}
	default:
		s.bad("republish-fault", "republish answered %v", r.err)
	}
}

// attack tries every operation on subscriptions of another session.
func (s *m02Sess) attack(sub uint32, item uint32, node ua.NodeID) {
	inv := ua.BadSubscriptionIDInvalid
	k := s.r.Intn(13)
	var req ua.ServiceRequest
	switch k {
	case 0:
		req = &ua.ModifySubscriptionRequest{SubscriptionID: sub, RequestedPublishingInterval: 60000, RequestedLifetimeCount: 3, RequestedMaxKeepAliveCount: 1}
	case 1:
		req = &ua.SetPublishingModeRequest{PublishingEnabled: false, SubscriptionIDs: []uint32{sub}}
	case 2:
		req = &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}}
	case 3:
		req = &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{valueItem(node, 999999, 100, 1, true, nil)}}
	case 4:
		req = &ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: item, RequestedParameters: ua.MonitoringParameters{ClientHandle: 888888, SamplingInterval: 60000}}}}
	case 5:
		req = &ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: []uint32{item}}
	case 6:
		req = &ua.SetTriggeringRequest{SubscriptionID: sub, TriggeringItemID: item, LinksToAdd: []uint32{item}}
	case 7:
		req = &ua.DeleteMonitoredItemsRequest{SubscriptionID: sub, MonitoredItemIDs: []uint32{item}}
	case 8:
		req = &ua.RepublishRequest{SubscriptionID: sub, RetransmitSequenceNumber: 1}
	case 9:
		req = &ua.TransferSubscriptionsRequest{SubscriptionIDs: []uint32{sub}, SendInitialValues: true}
	case 10:
		req = &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerGetMonitoredItems, InputArguments: []ua.Variant{sub}}}}
	case 11:
		req = &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerResendData, InputArguments: []ua.Variant{sub}}}}
	case 12: // a foreign item through an own subscription
		own := uint32(0)
		s.mu.Lock()
		for id := range s.subs {
			own = id
		}
		s.mu.Unlock()
		if own == 0 {
			return
		}
		inv = ua.BadMonitoredItemIDInvalid
		switch s.r.Intn(3) {
		case 0:
			req = &ua.SetMonitoringModeRequest{SubscriptionID: own, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: []uint32{item}}
		case 1:
			req = &ua.DeleteMonitoredItemsRequest{SubscriptionID: own, MonitoredItemIDs: []uint32{item}}
		case 2:
			req = &ua.ModifyMonitoredItemsRequest{SubscriptionID: own, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: item, RequestedParameters: ua.MonitoringParameters{ClientHandle: 888888, SamplingInterval: 60000}}}}
		}
	}
	s.mu.Lock()
	a := s.a
	s.mu.Unlock()
	res, err := a.Do(req)
	if err == errACClosed {
		return
	}
	if res == nil {
		s.bad("unanswered", "%T not answered: %v", req, err)
		return
	}
	st := res.Header().ServiceResult
	if st == ua.Good {
		switch x := res.(type) {
		case *ua.SetPublishingModeResponse:
			st = x.Results[0]
		case *ua.DeleteSubscriptionsResponse:
			st = x.Results[0]
		case *ua.CallResponse:
			st = x.Results[0].StatusCode
			if x.Results[0].OutputArguments != nil && len(x.Results[0].OutputArguments) > 0 {
				st = ua.Good
			}
		case *ua.SetMonitoringModeResponse:
			st = x.Results[0]
		case *ua.DeleteMonitoredItemsResponse:
			st = x.Results[0]
		case *ua.ModifyMonitoredItemsResponse:
			st = x.Results[0].StatusCode
		}
	}
	if k >= 9 && k <= 11 {
		if !st.IsBad() {
			s.bad("foreign-"+fmt.Sprintf("%T", req)[4:], "an operation on a subscription of another session answered %v", st)
		}
	} else if st != inv {
		s.bad("foreign-"+fmt.Sprintf("%T", req)[4:], "an operation on a subscription of another session answered %v, expected %v", st, inv)
	}
	s.c.Eval(fmt.Sprintf("attack/%d/%v", k, st))
}

func (s *m02Sess) newSub(round int, h *atomic.Uint32, limit int, maxN uint32) *m02Sub {
	s.mu.Lock()
	a := s.a
	s.mu.Unlock()
	// publishing starts disabled so that the first message does not precede the bookkeeping
	iv := []float64{125, 125, 150, 250}[s.r.Intn(4)]
	m := &m02Sub{maxN: maxN, next: 1, got: map[uint32]ua.NotificationMessage{}, acked: map[uint32]bool{}, done: map[uint32]bool{}, items: map[uint32]*m01Item{}, early: map[uint32]ua.NotificationMessage{}, miss: map[uint32]bool{}, limit: limit}
	// hold the lock: the reader must not judge messages of a subscription that is not registered yet
	s.mu.Lock()
	ch := make(chan acRes, 1)
	err := a.Go(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: iv, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 2 + uint32(s.r.Intn(4)), MaxNotificationsPerPublish: maxN, PublishingEnabled: true, Priority: byte(s.r.Intn(3))}, func(r acRes) {
		if r.err == nil {
			s.mu.Lock()
			m.id = r.res.(*ua.CreateSubscriptionResponse).SubscriptionID
			if s.subs[m.id] != nil || s.dead[m.id] {
				s.bad("id-reused", "subscription id %d given out twice", m.id)
			}
			s.subs[m.id] = m
			s.mu.Unlock()
		}
		ch <- r
	})
	s.mu.Unlock()
	must(err)
	r := <-ch
	if r.err != nil {
		s.bad("create", "creating a subscription answered %v", r.err)
		return nil
	}
	for i := 0; i < 4; i++ {
		hh := h.Add(1)
		rr := rand.New(rand.NewSource(s.r.Int63()))
		hold := 2 + rr.Intn(6)
		st := s.w.newStream(fmt.Sprintf("M02.%d.%d", round, hh), ua.DataTypeIDInt64, 0, int64(0), func(i int) (ua.Variant, ua.StatusCode, int) {
			return int64(i), ua.Good, hold + rr.Intn(3)
		})
		it := &m01Item{h: hh, st: st, ti: 20 * time.Millisecond, queue: 1000, oldest: true, ts: ua.TimestampsToReturnBoth, limited: true, sub: m.id}
		s.mu.Lock()
		m.items[hh] = it
		s.mu.Unlock()
		res := a.createItems(m.id, it.ts, valueItem(st.node.NodeID(), hh, 20, 1000, true, nil))[0]
		if res.StatusCode != ua.Good {
			s.bad("create", "creating a monitored item answered %v", res.StatusCode)
			return nil
		}
		it.queue, it.ti = res.RevisedQueueSize, time.Duration(res.RevisedSamplingInterval*1e6)
		m.ids = append(m.ids, res.MonitoredItemID)
	}
	return m
}

// reconnect drops the connection and resumes the session on another channel.
func (s *m02Sess) reconnect() bool {
	s.mu.Lock()
	old := s.a
	s.drop++
	s.stale += s.out
	s.out = 0
	s.mu.Unlock()
	old.Close()
	rc2, err := s.w.Raw(raw.None, raw.ModeNone)
	must(err)
	rc := old.rc
	rc2.Session, rc2.AuthToken, rc2.ServerNonce, rc2.SessionID = rc.Session, rc.AuthToken, rc.ServerNonce, rc.SessionID
	if err := rc2.ActivateAnonymous(); err != nil {
		s.bad("resume", "a session with subscriptions cannot be resumed: %v", err)
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.a = newAC(rc2)
	s.c.Count("connections dropped and resumed", 1)
	return true
}

// finish drains, deletes and compares the whole history of every item.
func (s *m02Sess) finish(foreign []uint32) {
	s.mu.Lock()
	subs := []*m02Sub{}
	for _, m := range s.subs {
		subs = append(subs, m)
		for _, it := range m.items {
			it.st.mu.Lock()
			it.st.frozen = true
			it.st.mu.Unlock()
		}
	}
	s.mu.Unlock()
	final := func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, m := range subs {
			lastv := map[uint32]int{}
			for _, nm := range m.got {
				for _, n := range dataOf(pubMsg{resp: &ua.PublishResponse{NotificationMessage: nm}}) {
					if v, ok := n.Value.Value.(int64); ok && int(v)+1 > lastv[n.ClientHandle] {
						lastv[n.ClientHandle] = int(v) + 1
					}
				}
			}
			for h, it := range m.items {
				it.st.mu.Lock()
				n := len(it.st.runs)
				it.st.mu.Unlock()
				if lastv[h] != n {
					return false
				}
			}
			if len(m.miss) > 0 {
				return false
			}
		}
		return true
	}
	// a subscription with a limit sends one message per interval: wait as long as messages come
	got := func() (n int) {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, m := range subs {
			for _, nm := range m.got {
				if len(nm.NotificationData) > 0 {
					n++
				}
			}
		}
		return
	}
	deadline, have := time.Now().Add(40*time.Second), got()
	for !final() && time.Now().Before(deadline) {
		if n := got(); n > have {
			have = n
			deadline = time.Now().Add(40 * time.Second)
		}
		s.fill()
		for i := 0; i < 8; i++ {
			s.mu.Lock()
			o := s.out
			s.mu.Unlock()
			if o < 12 {
				s.publish(foreign)
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	s.mu.Lock()
	for _, m := range subs {
		var seqs []uint32
		for q := range m.got {
			seqs = append(seqs, q)
		}
		sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
		if len(m.miss) > 0 || len(seqs) != int(m.next)-1 {
			s.bad("numbers-missing", "subscription %d: %d of %d messages received or recovered", m.id, len(seqs), m.next-1)
		}
		for _, q := range seqs {
			nm := m.got[q]
			for _, n := range dataOf(pubMsg{resp: &ua.PublishResponse{NotificationMessage: nm}}) {
				if it := m.items[n.ClientHandle]; it != nil {
					it.got = append(it.got, m01Got{n.Value, int(q), nm.PublishTime, 0, 1})
				}
			}
		}
		for _, it := range m.items {
			it.judge(s.c, nil)
		}
	}
	a := s.a
	s.mu.Unlock()
	if s.c.Violated() {
		a.Close()
		return
	}
	// every request is answered when the last subscription goes away
	var ids []uint32
	for _, m := range subs {
		ids = append(ids, m.id)
	}
	for i := 0; i < 10; i++ {
		s.publish(nil)
	}
	res, err := a.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: append(ids, foreign...)})
	if err != nil {
		s.bad("delete", "deleting subscriptions: %v", err)
	} else {
		for i, st := range res.(*ua.DeleteSubscriptionsResponse).Results {
			if i < len(ids) && st != ua.Good || i >= len(ids) && st != ua.BadSubscriptionIDInvalid {
				s.bad("delete", "deleting subscription %d of %d own ones answered %v", i, len(ids), st)
			}
		}
	}
	ok := false
	for i := 0; i < 300 && !ok; i++ {
		ok = a.outstanding() == 0
		time.Sleep(20 * time.Millisecond)
	}
	if !ok {
		s.bad("unanswered", "%d publish requests not answered 6 s after the last subscription was deleted", a.outstanding())
	}
	a.mu.Lock()
	if a.extra > 0 {
		s.bad("answered-twice", "%d responses nobody asked for", a.extra)
	}
	a.mu.Unlock()
	a.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	a.Close()
}

// fill recovers missed messages.
func (s *m02Sess) fill() {
	s.mu.Lock()
	type q struct {
		m *m02Sub
		q uint32
	}
	var todo []q
	for _, m := range s.subs {
		for x := range m.miss {
			todo = append(todo, q{m, x})
		}
	}
	s.mu.Unlock()
	for _, t := range todo {
		s.republish(t.m, t.q)
	}
}

func m02World(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 })), server.WithMaxSubscriptionCount(400)}})
	defer w.Srv.Close()
	var h atomic.Uint32
	// the victim's subscription that everybody attacks is a normal one of the first session
	var ss []*m02Sess
	for k := 0; k < 6; k++ {
		ss = append(ss, &m02Sess{c: c, w: w, r: rand.New(rand.NewSource(r.Int63())), a: w.AC(), subs: map[uint32]*m02Sub{}, dead: map[uint32]bool{}, name: fmt.Sprintf("session %d", k)})
	}
	foreign := make([][]uint32, len(ss))
	var firsts []*m02Sub
	for _, s := range ss {
		m := s.newSub(round, &h, m02Keep, 0)
		if m == nil {
			return
		}
		firsts = append(firsts, m)
	}
	for i := range ss {
		for j := range ss {
			if i != j {
				foreign[i] = append(foreign[i], firsts[j].id)
			}
		}
	}
	end := time.Now().Add(time.Duration(c.N(12, 40)) * time.Second)
	var wg sync.WaitGroup
	for i, s := range ss {
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			drops := i%2 == 0
			limit := 10
			var quiet time.Time
			for time.Now().Before(end) && !c.Violated() {
				r := s.r
				s.mu.Lock()
				o, n := s.out, len(s.subs)
				var pick *m02Sub
				for _, m := range s.subs {
					pick = m
					break
				}
				s.mu.Unlock()
				switch x := r.Intn(40); {
				case x < 14:
					if r.Intn(25) == 0 {
						limit = []int{1, 2, 10}[r.Intn(3)]
						if r.Intn(2) == 0 {
							quiet = time.Now().Add(time.Duration(r.Intn(700)) * time.Millisecond)
						}
					}
					if o < limit && time.Now().After(quiet) {
						s.publish(foreign[i])
					}
				case x < 24:
					s.mu.Lock()
					nx := pick.next
					s.mu.Unlock()
					var q uint32
					switch r.Intn(6) {
					case 0:
						q = []uint32{0, nx, nx + 100000}[r.Intn(3)]
					default:
						q = nx - uint32(r.Intn(int(min(nx, 60))))
					}
					s.republish(pick, q)
				case x < 28:
					f := r.Intn(len(firsts))
					if f != i {
						s.attack(firsts[f].id, firsts[f].ids[r.Intn(len(firsts[f].ids))], ua.VariableIDServerServerStatusState)
					}
				case x == 28 && n < 4:
					s.newSub(round, &h, m02Keep, []uint32{0, 0, 2, 5}[r.Intn(4)])
				case x == 29 && n > 2:
					s.mu.Lock()
					var m *m02Sub
					for _, y := range s.subs {
						if y != firsts[i] {
							m = y
						}
					}
					a := s.a
					ch := make(chan acRes, 1)
					err := a.Go(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{m.id, m.id, 0xFFFFFFF0}}, func(r acRes) {
						if r.err == nil {
							s.mu.Lock()
							m.gone = true
							delete(s.subs, m.id)
							s.dead[m.id] = true
							s.mu.Unlock()
						}
						ch <- r
					})
					s.mu.Unlock()
					if err == nil {
						r := <-ch
						if r.err == nil {
							st := r.res.(*ua.DeleteSubscriptionsResponse).Results
							if len(st) != 3 || st[0] != ua.Good || st[1] != ua.BadSubscriptionIDInvalid || st[2] != ua.BadSubscriptionIDInvalid {
								s.bad("delete", "deleting a subscription twice and an unknown one answered %v", st)
							}
							c.Eval("delete")
						} else if r.err != errACClosed {
							s.bad("delete", "deleting a subscription answered %v", r.err)
						}
					}
				case x == 30 && drops && r.Intn(3) == 0:
					if !s.reconnect() {
						return
					}
				case x == 31:
					s.fill()
				case x == 32: // overfill
					if r.Intn(10) == 0 {
						for k := 0; k < 70; k++ {
							s.publish(nil)
						}
					}
				default:
					time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	if c.Violated() {
		return
	}
	for i, s := range ss {
		i, s := i, s
		wg.Add(1)
		go func() { defer wg.Done(); s.finish(foreign[i]) }()
	}
	wg.Wait()
}

// m02Backlog: many unacknowledged messages; the retransmission limit discards the oldest only.
func m02Backlog(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 }))}})
	defer w.Srv.Close()
	a := w.AC()
	defer a.Close()
	sub := a.createSub(125, 10000, 10, 1, true, 0)
	var items []ua.MonitoredItemCreateRequest
	for i := 0; i < 10; i++ {
		st := w.newStream(fmt.Sprintf("M02b.%d.%d", round, i), ua.DataTypeIDInt64, 0, int64(0), func(i int) (ua.Variant, ua.StatusCode, int) { return int64(i), ua.Good, 1 })
		items = append(items, valueItem(st.node.NodeID(), uint32(i), 20, 1000, true, nil))
	}
	a.createItems(sub.SubscriptionID, ua.TimestampsToReturnBoth, items...)
	time.Sleep(2500 * time.Millisecond)
	var msgs []ua.NotificationMessage
	var avail []uint32
	for len(msgs) < 220 {
		res, err := a.Do(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}})
		if err != nil {
			c.Violate("backlog", "publish while a backlog of messages is unacknowledged: %v", err)
			return
		}
		p := res.(*ua.PublishResponse)
		if len(p.NotificationMessage.NotificationData) == 0 {
			continue
		}
		if q := p.NotificationMessage.SequenceNumber; int(q) != len(msgs)+1 {
			c.Violate("sequence", "message %d follows %d", q, len(msgs))
			return
		}
		msgs = append(msgs, p.NotificationMessage)
		avail = p.AvailableSequenceNumbers
		if len(avail) < min(len(msgs), m02Keep) {
			c.Violate("not-available", "%d messages sent, none acknowledged, only %d available", len(msgs), len(avail))
			return
		}
		for i, q := range avail {
			if q != avail[0]+uint32(i) {
				c.Violate("not-available", "the available numbers of unacknowledged messages have a gap: %v", avail)
				return
			}
		}
		if avail[len(avail)-1] != uint32(len(msgs)) {
			c.Violate("not-available", "the newest message %d is not available: %v", len(msgs), avail)
			return
		}
		c.Eval(fmt.Sprintf("backlog/%d", len(avail)))
	}
	for q := uint32(1); q <= uint32(len(msgs)); q++ {
		res, err := a.Do(&ua.RepublishRequest{SubscriptionID: sub.SubscriptionID, RetransmitSequenceNumber: q})
		in := q >= avail[0]
		switch {
		case err == nil && !sameMsg(res.(*ua.RepublishResponse).NotificationMessage, msgs[q-1]):
			c.Violate("republish-differs", "message %d republished with different content", q)
		case err == nil && !in:
			c.Violate("republish-unavailable", "message %d is republished though it is not listed as available", q)
		case err != nil && in:
			c.Violate("republish-lost", "message %d is listed as available but republishing answers %v", q, err)
		case err != nil && err != ua.BadMessageNotAvailable:
			c.Violate("republish-fault", "republishing a discarded message answered %v", err)
		}
		c.Eval(fmt.Sprintf("backlog-republish/%v", in))
	}
}

// m02Stale: requests left behind by a dropped connection must not hurt the connection that resumes the session.
func m02Stale(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{})
	defer w.Srv.Close()
	for k := 0; k < c.N(12, 40); k++ {
		a := w.AC()
		n := 1 + r.Intn(3)
		var ids []uint32
		for i := 0; i < n; i++ {
			ids = append(ids, a.createSub(5000, 10000, 10, 0, true, 0).SubscriptionID)
		}
		hint := []uint32{1, 30, 60000}[r.Intn(3)]
		for i := 0; i < 1+r.Intn(5); i++ {
			a.Go(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: hint}}, func(acRes) {})
		}
		a.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}}})
		a.Close()
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
		rc2, err := w.Raw(raw.None, raw.ModeNone)
		must(err)
		rc := a.rc
		rc2.Session, rc2.AuthToken, rc2.ServerNonce, rc2.SessionID = rc.Session, rc.AuthToken, rc.ServerNonce, rc.SessionID
		if err := rc2.ActivateAnonymous(); err != nil {
			c.Violate("resume", "a session with subscriptions cannot be resumed: %v", err)
			return
		}
		b := newAC(rc2)
		var m atomic.Int32
		live := r.Intn(4)
		for i := 0; i < live; i++ {
			b.Go(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}}, func(r acRes) {
				if r.err == ua.BadNoSubscription || r.err == nil {
					m.Add(1)
				} else {
					c.Violate("stale", "publish request answered %v", r.err)
				}
			})
		}
		if _, err := b.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: ids}); err != nil {
			c.Violate("stale-delete", "deleting subscriptions on a resumed session: %v", err)
			return
		}
		if _, err := b.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}}}); err != nil {
			c.Violate("stale-connection", "after deleting the subscriptions of a resumed session the connection fails: %v (requests of the old connection had a timeout of %d ms)", err, hint)
			return
		}
		ok := false
		for i := 0; i < 200 && !ok; i++ {
			ok = int(m.Load()) == live
			time.Sleep(10 * time.Millisecond)
		}
		if !ok {
			c.Violate("unanswered", "%d of %d publish requests unanswered after the last subscription of a resumed session was deleted", live-int(m.Load()), live)
			return
		}
		c.Eval(fmt.Sprintf("stale/%d/%d/%d", n, hint, live))
		b.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true})
		b.Close()
	}
}

func runM02(c *Ctx) {
	r := c.Rng("m02")
	for k := 0; k < c.N(2, 8) && !c.Violated(); k++ {
		var wg sync.WaitGroup
		r2 := rand.New(rand.NewSource(r.Int63()))
		r3 := rand.New(rand.NewSource(r.Int63()))
		r4 := rand.New(rand.NewSource(r.Int63()))
		wg.Add(3)
		go func() { defer wg.Done(); m02Stale(c, r4, k) }()
		go func() { defer wg.Done(); m02World(c, r2, k) }()
		go func() { defer wg.Done(); m02Backlog(c, r3, k) }()
		wg.Wait()
	}
}
