package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/ua"
)

// acRes is the response to one request.
type acRes struct {
	res ua.ServiceResponse
	err error
	at  time.Time
}

// AC is an asynchronous client on top of a raw channel: any number of requests outstanding.
type AC struct {
	rc     *raw.Client
	mu     sync.Mutex
	pend   map[uint32]func(acRes)
	err    error
	closed chan struct{}
	extra  int // responses nobody asked for
}

func newAC(rc *raw.Client) *AC {
	a := &AC{rc: rc, pend: map[uint32]func(acRes){}, closed: make(chan struct{})}
	go a.loop()
	return a
}

var errACClosed = errors.New("channel closed")

func (a *AC) loop() {
	for {
		id, res, err := a.rc.Recv()
		now := time.Now()
		a.mu.Lock()
		if err != nil {
			a.err = err
			p := a.pend
			a.pend = map[uint32]func(acRes){}
			a.mu.Unlock()
			close(a.closed)
			for _, f := range p {
				f(acRes{nil, errACClosed, now})
			}
			return
		}
		f, ok := a.pend[id]
		delete(a.pend, id)
		if !ok {
			a.extra++
		}
		a.mu.Unlock()
		if ok {
			var e error
			if sr := res.Header().ServiceResult; sr != ua.Good {
				e = sr
			}
			f(acRes{res, e, now})
		}
	}
}

// Go sends a request; f runs in the reader when the response arrives.
func (a *AC) Go(req ua.ServiceRequest, f func(acRes)) error {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.err != nil {
		return a.err
	}
	a.rc.Prep(req)
	b, err := raw.Encode(req)
	if err != nil {
		return err
	}
	id := a.rc.NextReq()
	a.pend[id] = f
	if err := a.rc.SendMsg("MSG", id, b); err != nil {
		delete(a.pend, id)
		return err
	}
	return nil
}

// Do sends a request and waits.
func (a *AC) Do(req ua.ServiceRequest) (ua.ServiceResponse, error) {
	ch := make(chan acRes, 1)
	if err := a.Go(req, func(r acRes) { ch <- r }); err != nil {
		return nil, err
	}
	select {
	case r := <-ch:
		return r.res, r.err
	case <-time.After(60 * time.Second):
		return nil, errUnanswered(fmt.Sprintf("no response to %T within 60 s", req))
	}
}

func (a *AC) outstanding() int { a.mu.Lock(); defer a.mu.Unlock(); return len(a.pend) }

func (a *AC) Close() { a.rc.Close(); <-a.closed }

// session opens a channel (policy None) with an anonymous session and wraps it.
func (w *World) AC() *AC {
	rc, err := w.RawSession(raw.None, 0)
	must(err)
	return newAC(rc)
}

func (w *World) ACUser(u string) *AC {
	rc, err := w.RawUser(raw.None, 0, u, userDB[u])
	must(err)
	return newAC(rc)
}

func (a *AC) createSub(interval float64, life, keep, maxN uint32, enabled bool, prio byte) *ua.CreateSubscriptionResponse {
	res, err := a.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: interval, RequestedLifetimeCount: life, RequestedMaxKeepAliveCount: keep, MaxNotificationsPerPublish: maxN, PublishingEnabled: enabled, Priority: prio})
	must(err)
	return res.(*ua.CreateSubscriptionResponse)
}

func (a *AC) createItems(sub uint32, ts ua.TimestampsToReturn, items ...ua.MonitoredItemCreateRequest) []ua.MonitoredItemCreateResult {
	res, err := a.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ts, ItemsToCreate: items})
	must(err)
	return res.(*ua.CreateMonitoredItemsResponse).Results
}

func valueItem(id ua.NodeID, handle uint32, sampling float64, queue uint32, discardOldest bool, filter any) ua.MonitoredItemCreateRequest {
	return ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: handle, SamplingInterval: sampling, QueueSize: queue, DiscardOldest: discardOldest, Filter: filter}}
}

// pubMsg is one received publish response.
type pubMsg struct {
	sub  uint32
	seq  uint32
	at   time.Time
	n    int // order of receipt
	resp *ua.PublishResponse
}

// Publisher keeps publish requests outstanding and records the responses. Notifications are acknowledged with the next request.
type Publisher struct {
	a      *AC
	mu     sync.Mutex
	msgs   []pubMsg
	faults map[ua.StatusCode]int
	acks   []ua.SubscriptionAcknowledgement
	want   int // requests to keep outstanding
	out    int
	noAck  bool
	stop   bool
	on     func(pubMsg)
	hint   uint32
	sent   int
	idle   chan struct{}
}

func newPublisher(a *AC, want int) *Publisher {
	p := &Publisher{a: a, want: want, faults: map[ua.StatusCode]int{}, hint: 600000}
	return p
}

func (p *Publisher) pump() {
	p.mu.Lock()
	for !p.stop && p.out < p.want {
		p.out++
		p.sent++
		req := &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: p.hint}, SubscriptionAcknowledgements: p.acks}
		p.acks = nil
		p.mu.Unlock()
		err := p.a.Go(req, p.got)
		p.mu.Lock()
		if err != nil {
			p.out--
			p.stop = true
			break
		}
	}
	p.mu.Unlock()
}

func (p *Publisher) got(r acRes) {
	p.mu.Lock()
	p.out--
	if r.err != nil {
		if sc, ok := r.err.(ua.StatusCode); ok {
			p.faults[sc]++
			if sc != ua.BadTimeout && sc != ua.BadTooManyPublishRequests {
				p.stop = true
			}
		} else {
			p.stop = true
		}
		p.mu.Unlock()
	} else {
		res := r.res.(*ua.PublishResponse)
		m := pubMsg{res.SubscriptionID, res.NotificationMessage.SequenceNumber, r.at, len(p.msgs), res}
		p.msgs = append(p.msgs, m)
		if !p.noAck && len(res.NotificationMessage.NotificationData) > 0 {
			p.acks = append(p.acks, ua.SubscriptionAcknowledgement{SubscriptionID: res.SubscriptionID, SequenceNumber: m.seq})
		}
		on := p.on
		p.mu.Unlock()
		if on != nil {
			on(m)
		}
	}
	go p.pump()
}

// Want changes the number of outstanding requests.
func (p *Publisher) Want(n int) {
	p.mu.Lock()
	p.want = n
	p.mu.Unlock()
	p.pump()
}

func (p *Publisher) Stop() { p.mu.Lock(); p.stop = true; p.mu.Unlock() }

func (p *Publisher) Msgs() []pubMsg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]pubMsg{}, p.msgs...)
}

// dataOf returns the data change notifications of a message.
func dataOf(m pubMsg) []ua.MonitoredItemNotification {
	var out []ua.MonitoredItemNotification
	for _, x := range m.resp.NotificationMessage.NotificationData {
		if d, ok := x.(ua.DataChangeNotification); ok {
			out = append(out, d.MonitoredItems...)
		}
	}
	return out
}

func eventsOf(m pubMsg) []ua.EventFieldList {
	var out []ua.EventFieldList
	for _, x := range m.resp.NotificationMessage.NotificationData {
		if d, ok := x.(ua.EventNotificationList); ok {
			out = append(out, d.Events...)
		}
	}
	return out
}

func capsWith(f func(*ua.ServerCapabilities)) *ua.ServerCapabilities {
	c := ua.NewServerCapabilities()
	f(c)
	return c
}
