package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"verifharness/raw"
)

func init() {
	register("R02", &check{run: runR02, minEvals: 300, minDistinct: 40,
		rule:        "servers are closed (once, again, at once from many sides, from a method, before they listen) while clients in every stage of connecting and working come and go, and must return, end all connections and goroutines and free their address; and crowds of clients leave a long running server in every way, after which its sessions, subscriptions, diagnostics nodes, goroutines, sampling, file descriptors and heap must be back at the level after the first crowd",
		assumptions: []string{"sessions expire after at most 15 s and subscriptions without a client after at most 75 s, as the server revises the requested values", "poll groups (one goroutine for each sampling interval in use since the start) may remain until the server is closed", "a peer that connects and sends nothing may delay the end of ListenAndServe by 20 s"}})
}

type r02 struct {
	c     *Ctx
	reads atomic.Int64
}

// prepare adds what the clients work with.
func (a *r02) prepare(w *World) {
	v := w.addVar(VarSpec{Name: "polled", Value: int32(1), DataType: ua.DataTypeIDInt32, Rank: -1})
	v.SetReadValueHandler(func(_ *server.Session, _ ua.ReadValueID) ua.DataValue {
		return ua.NewDataValue(int32(a.reads.Add(1)), 0, time.Now(), 0, time.Now(), 0)
	})
	for i := 0; i < 4; i++ {
		w.addVar(VarSpec{Name: fmt.Sprintf("v%d", i), Value: int32(i), DataType: ua.DataTypeIDInt32, Rank: -1})
	}
}

// r02Step is something a client with a session does.
func (a *r02) work(w *World, ac *AC, r *rand.Rand, sub func() uint32) error {
	ns := w.ensureNS()
	var req ua.ServiceRequest
	switch r.Intn(8) {
	case 0:
		req = &ua.BrowseRequest{RequestedMaxReferencesPerNode: 1, NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionBoth, IncludeSubtypes: true, ResultMask: 63}}}
	case 1:
		req = &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDString(ns, fmt.Sprintf("v%d", r.Intn(4))), AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(r.Int31(), 0, time.Time{}, 0, time.Time{}, 0)}}}
	case 2:
		req = readReq(ua.NewNodeIDString(ns, fmt.Sprintf("v%d", r.Intn(4))))
	case 3:
		req = &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerGetMonitoredItems, InputArguments: []ua.Variant{sub()}}}}
	case 4:
		req = &ua.ModifySubscriptionRequest{SubscriptionID: sub(), RequestedPublishingInterval: float64(125 + r.Intn(3)*50), RequestedLifetimeCount: 10, RequestedMaxKeepAliveCount: uint32(1 + r.Intn(4))}
	case 5:
		req = &ua.SetPublishingModeRequest{PublishingEnabled: r.Intn(2) == 0, SubscriptionIDs: []uint32{sub()}}
	case 6:
		req = &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub()}}
	default:
		var items []ua.MonitoredItemCreateRequest
		for n := 1 + r.Intn(6); n > 0; n-- {
			if r.Intn(3) == 0 {
				items = append(items, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: ua.ObjectIDServer, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
					RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 10, Filter: ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses}}})
				continue
			}
			name := pick(r, "polled", "polled", "v0", "v1")
			items = append(items, valueItem(ua.NewNodeIDString(ns, name), 1, float64(100+100*r.Intn(3)), 1+uint32(r.Intn(10)), true, nil))
		}
		req = &ua.CreateMonitoredItemsRequest{SubscriptionID: sub(), TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: items}
	}
	res, err := ac.Do(req)
	if m, ok := res.(*ua.CreateMonitoredItemsResponse); ok && err == nil {
		for _, x := range m.Results {
			if x.StatusCode == ua.Good {
				a.c.Count("items", 1)
			}
		}
	}
	if _, ok := err.(ua.StatusCode); ok {
		return nil
	}
	return err
}

// visit is one client from its connection to its end. It returns what it did.
func (a *r02) visit(w *World, r *rand.Rand, idle bool, stop *atomic.Bool) (what string) {
	kind := pick(r, "tcp", "channel", "created", "session", "session", "session", "session", "lib", "lib")
	leave := pick(r, "close", "keep", "clo", "fin", "rst", "mid", "idle")
	if leave == "idle" && !idle {
		leave = pick(r, "fin", "rst")
	}
	what = kind + "/" + leave
	end := func(conn net.Conn) {
		switch leave {
		case "rst":
			if t, ok := conn.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		case "mid":
			conn.Write([]byte("MSGF\x00\x10\x00\x00rest"))
		case "idle":
			for i := 0; i < 120 && !stop.Load(); i++ {
				time.Sleep(100 * time.Millisecond)
			}
		}
		conn.Close()
	}
	mode := pick(r, allModes()[0], allModes()[0], allModes()[0], allModes()[1+r.Intn(10)])
	switch kind {
	case "tcp":
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.Port), 5*time.Second)
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			conn.Write([]byte("HELF\x40\x00\x00\x00")[:r.Intn(8)+1])
		}
		if leave == "idle" {
			leave = "fin"
		}
		end(conn)
		return
	case "lib":
		opts := []client.Option{client.WithSecurityPolicyURI(mode.p.URI, ua.MessageSecurityMode(max(1, mode.m)))}
		if mode.p == raw.None {
			opts = []client.Option{client.WithSecurityPolicyURI(ua.SecurityPolicyURINone, ua.MessageSecurityModeNone)}
		}
		opts = append(opts, client.WithSessionTimeout(10000))
		cl, err := w.Dial(mode.p, mode.m, opts...)
		if err != nil {
			return
		}
		ctx, cancel := ctxT(30 * time.Second)
		defer cancel()
		for n := r.Intn(3); n > 0; n-- {
			res, err := cl.CreateSubscription(ctx, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 10, RequestedMaxKeepAliveCount: 2, PublishingEnabled: true})
			if err != nil {
				break
			}
			cl.CreateMonitoredItems(ctx, &ua.CreateMonitoredItemsRequest{SubscriptionID: res.SubscriptionID, ItemsToCreate: []ua.MonitoredItemCreateRequest{valueItem(ua.NewNodeIDString(w.ensureNS(), "polled"), 1, 100, 3, true, nil)}})
			cl.Publish(ctx, &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}})
		}
		if leave == "close" || leave == "keep" {
			c2, cancel2 := ctxT(10 * time.Second)
			defer cancel2()
			cl.Close(c2)
			return
		}
		cl.Abort(bg())
		return
	}
	rc, err := w.Raw(mode.p, mode.m)
	if err != nil {
		return
	}
	defer func() { end(rc.Conn) }()
	if kind == "channel" {
		return
	}
	rc.Conn.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := rc.CreateSession("r02", 1000); err != nil || kind == "created" {
		return
	}
	if err := rc.ActivateAnonymous(); err != nil {
		return
	}
	rc.Conn.SetDeadline(time.Time{})
	ac := newAC(rc)
	var subs []uint32
	for n := r.Intn(3); n > 0; n-- {
		res, err := ac.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(r.Intn(300)), RequestedLifetimeCount: 10, RequestedMaxKeepAliveCount: uint32(1 + r.Intn(4)), PublishingEnabled: r.Intn(4) > 0})
		if err != nil {
			a.c.Count("subscriptions_refused", 1)
			break
		}
		subs = append(subs, res.(*ua.CreateSubscriptionResponse).SubscriptionID)
		a.c.Count("subscriptions", 1)
	}
	p := newPublisher(ac, r.Intn(4))
	p.noAck = r.Intn(2) == 0
	p.pump()
	for n := r.Intn(20); n > 0 && !stop.Load(); n-- {
		if a.work(w, ac, r, func() uint32 {
			if len(subs) == 0 {
				return 99999
			}
			return subs[r.Intn(len(subs))]
		}) != nil {
			return
		}
	}
	switch leave {
	case "close", "keep":
		ac.Do(&ua.CloseSessionRequest{DeleteSubscriptions: leave == "close"})
	case "clo":
		b, _ := raw.Encode(&ua.CloseSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now()}})
		rc.SendMsg("CLO", rc.NextReq(), b)
	}
	return
}

// serverGoroutines returns the goroutines that run code of the server, without poll groups.
func serverGoroutines() (n int, polls int, ex string) {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "opcua/server.") && !strings.Contains(g, "gammazero/workerpool") {
			continue
		}
		if strings.Contains(g, "PollGroup") {
			polls++
			continue
		}
		if strings.Contains(g, "verifharness") || strings.Contains(g, "main.") && !strings.Contains(g, "created by github.com/awcullen/opcua") && !strings.Contains(g, "opcua/server.New") {
			continue
		}
		n++
		ex = g
	}
	return
}

func fds() int {
	l, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(l)
}

// nodeCount counts the nodes below the Server object.
func nodeCount(w *World) int {
	rc, err := w.RawSession(raw.None, 0)
	must(err)
	defer rc.Close()
	seen := map[string]bool{}
	todo := []ua.NodeID{ua.ObjectIDServer}
	for len(todo) > 0 {
		n := min(len(todo), 100)
		q := &ua.BrowseRequest{}
		for _, id := range todo[:n] {
			q.NodesToBrowse = append(q.NodesToBrowse, ua.BrowseDescription{NodeID: id, BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDAggregates, IncludeSubtypes: true, ResultMask: 63})
		}
		todo = todo[n:]
		res, err := rc.Do(q)
		must(err)
		for _, b := range res.(*ua.BrowseResponse).Results {
			for _, x := range b.References {
				id := ua.ToNodeID(x.NodeID, nil)
				k := fmt.Sprint(id)
				if !seen[k] {
					seen[k] = true
					todo = append(todo, id)
				}
			}
		}
	}
	for id, want := range map[ua.NodeID]uint32{ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCurrentSessionCount: 2, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCurrentSubscriptionCount: 0} {
		res, err := rc.Do(readReq(id))
		must(err)
		if v := res.(*ua.ReadResponse).Results[0].Value; v != want {
			w.C.Violate("diagnostics", "with two sessions and no subscription the diagnostics summary says %v for %v", v, id)
		}
	}
	_, err = rc.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	must(err)
	return len(seen)
}

type r02Level struct {
	sessions, subs, goroutines, fds, nodes int
	heap                                   int
	ex                                     string
}

func (a *r02) level(w *World) (l r02Level) {
	l.sessions, l.subs = w.Srv.SessionManager().Len(), w.Srv.SubscriptionManager().Len()
	if l.sessions == 1 && l.subs == 0 {
		l.nodes = nodeCount(w)
	}
	time.Sleep(200 * time.Millisecond)
	l.goroutines, _, l.ex = serverGoroutines()
	l.fds = fds()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	l.heap = int(m.HeapAlloc)
	return
}

// storm: a session that creates and deletes subscriptions and items.
func (a *r02) storm(w *World, ac *AC, r *rand.Rand) {
	ns := w.ensureNS()
	for n := 0; n < 25; n++ {
		res, err := ac.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1000, PublishingEnabled: true})
		if err != nil {
			a.c.Violate("storm", "no subscription is created: %v", err)
			return
		}
		id := res.(*ua.CreateSubscriptionResponse).SubscriptionID
		var items []ua.MonitoredItemCreateRequest
		for i := 0; i < 300; i++ {
			if i%2 == 0 {
				items = append(items, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: ua.ObjectIDServer, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
					RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 10, Filter: ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses}}})
				continue
			}
			items = append(items, valueItem(ua.NewNodeIDString(ns, pick(r, "polled", "v0")), 1, 100, 5, true, nil))
		}
		res, err = ac.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: id, ItemsToCreate: items})
		if err != nil {
			a.c.Violate("storm", "no items are created: %v", err)
			return
		}
		var ids []uint32
		for _, x := range res.(*ua.CreateMonitoredItemsResponse).Results {
			if x.StatusCode == ua.Good {
				ids = append(ids, x.MonitoredItemID)
			}
		}
		a.c.Count("storm_items", len(ids))
		time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		if n%2 == 0 {
			ac.Do(&ua.DeleteMonitoredItemsRequest{SubscriptionID: id, MonitoredItemIDs: ids})
		}
		ac.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{id}})
	}
}

// solo: a client comes, works and goes.
func (a *r02) solo(w *World, r *rand.Rand) {
	rc, err := w.Raw(raw.None, 0)
	must(err)
	defer rc.Close()
	_, err = rc.CreateSession("solo", 10000)
	must(err)
	must(rc.ActivateAnonymous())
	_, err = rc.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1000, PublishingEnabled: true})
	must(err)
	_, err = rc.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServer, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}, RequestedMaxReferencesPerNode: 1})
	must(err)
	_, err = rc.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	must(err)
}

// crowds: clients come to one server and leave in every way.
func (a *r02) crowds(r *rand.Rand) {
	w := newWorld(a.c, WorldOpts{Opts: []server.Option{bigCaps(), server.WithMaxSessionCount(100000), server.WithMaxSubscriptionCount(100000), server.WithServerDiagnostics(true)}})
	a.prepare(w)
	// a client that stays
	rc, err := w.Raw(raw.None, 0)
	must(err)
	_, err = rc.CreateSession("stays", 3600000)
	must(err)
	must(rc.ActivateAnonymous())
	stays := newAC(rc)
	var base r02Level
	rounds := 1 + a.c.N(1, 8)
	for round := 0; round < rounds && !a.c.Violated(); round++ {
		var wg sync.WaitGroup
		var stop, quiet atomic.Bool
		time.AfterFunc(8*time.Second, func() { quiet.Store(true) })
		time.AfterFunc(22*time.Second, func() { stop.Store(true) })
		visits := 0
		var mu sync.Mutex
		wg.Add(1)
		go func() {
			defer wg.Done()
			a.storm(w, stays, rand.New(rand.NewSource(r.Int63())))
		}()
		for g := 0; g < 64; g++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !quiet.Load() {
					what := a.visit(w, rr, g%8 == 0, &stop)
					a.c.Eval("visit/" + what)
					mu.Lock()
					visits++
					mu.Unlock()
				}
			}()
		}
		if !within(60*time.Second, wg.Wait) {
			a.c.Violate("crowd-hang", "clients of a server get no answer")
			return
		}
		a.c.Count("visits", visits)
		// all sessions and subscriptions end
		t := time.Now()
		for w.Srv.SessionManager().Len() > 1 || w.Srv.SubscriptionManager().Len() > 0 {
			time.Sleep(100 * time.Millisecond)
			if s := w.Srv.SessionManager().Len() - 1; s > 0 && time.Since(t) > 30*time.Second {
				a.c.Violate("sessions", "%d sessions remain %v after their clients have gone, with a timeout of 10 s", s, time.Since(t).Round(time.Second))
				return
			}
			if time.Since(t) > 90*time.Second {
				a.c.Violate("subscriptions", "%d subscriptions remain %v after their clients have gone", w.Srv.SubscriptionManager().Len(), time.Since(t).Round(time.Second))
				return
			}
		}
		a.c.Sample("ended", fmt.Sprintf("round %d: %d visits, sessions and subscriptions ended after %v", round, visits, time.Since(t).Round(time.Second)))
		var l r02Level
		for t := time.Now(); ; time.Sleep(500 * time.Millisecond) {
			l = a.level(w)
			if round == 0 && time.Since(t) > 3*time.Second || round > 0 && l.goroutines <= base.goroutines && l.fds <= base.fds+3 || time.Since(t) > 30*time.Second {
				break
			}
		}
		n := a.reads.Load()
		time.Sleep(1500 * time.Millisecond)
		if m := a.reads.Load(); m != n {
			a.c.Violate("sampling", "a variable is still read (%d times in 1.5 s) though no monitored item is left", m-n)
		}
		a.c.Sample("level", fmt.Sprintf("round %d: sessions %d subscriptions %d goroutines %d descriptors %d nodes %d heap %d kB", round, l.sessions, l.subs, l.goroutines, l.fds, l.nodes, l.heap>>10))
		a.c.Eval(fmt.Sprintf("level/%d", round))
		if round == 0 {
			base = l
			continue
		}
		if l.goroutines > base.goroutines {
			a.c.Violate("goroutines", "%d goroutines of the server after the crowd left, %d before, such as: %.700s", l.goroutines, base.goroutines, l.ex)
		}
		if l.fds > base.fds+3 {
			a.c.Violate("descriptors", "%d descriptors after the crowd left, %d before", l.fds, base.fds)
		}
		if l.nodes != base.nodes {
			a.c.Violate("nodes", "%d nodes below the Server object after the crowd left, %d before", l.nodes, base.nodes)
		}
		if l.sessions != 1 || l.subs > 0 {
			a.c.Violate("counts", "%d sessions and %d subscriptions", l.sessions, l.subs)
		}
	}
	// what one client does over and over does not add up
	for round := 0; round < 2+a.c.N(1, 4) && !a.c.Violated(); round++ {
		before := a.level(w).heap
		a.storm(w, stays, r)
		for i := 0; i < 150; i++ {
			a.solo(w, r)
		}
		for t := time.Now(); w.Srv.SubscriptionManager().Len() > 0 && time.Since(t) < 20*time.Second; {
			time.Sleep(100 * time.Millisecond)
		}
		after := a.level(w).heap
		for t := time.Now(); round > 0 && after > before+1<<20 && time.Since(t) < 10*time.Second; time.Sleep(500 * time.Millisecond) {
			after = a.level(w).heap
		}
		a.c.Sample("heap", fmt.Sprintf("repetition %d: %d kB, then %d kB", round, before>>10, after>>10))
		a.c.Eval(fmt.Sprintf("heap/%d", round))
		if round > 0 && after > before+1500<<10 {
			a.c.Violate("heap", "%d kB of live heap after one client created and deleted 25 subscriptions with 7500 items and 150 sessions, one after another, %d kB before", after>>10, before>>10)
		}
	}
	a.shut(w, "once")
	if !within(15*time.Second, func() { <-w.Served }) {
		a.c.Violate("serve-hang/crowds", "ListenAndServe does not return after Close")
	}
}

// shut closes a server in one of several ways.
func (a *r02) shut(w *World, how string) {
	ok := within(10*time.Second, func() {
		switch how {
		case "once":
			w.Srv.Close()
		case "twice":
			w.Srv.Close()
			w.Srv.Close()
		case "at once":
			var wg sync.WaitGroup
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); w.Srv.Close() }()
			}
			wg.Wait()
		}
	})
	if !ok {
		a.c.Violate("close-hang/"+how, "Close does not return (%s)", how)
	}
}

// life is one server from start to end, and a second one at the same address.
func (a *r02) life(r *rand.Rand, silent bool) {
	how := pick(r, "once", "once", "twice", "at once", "method", "unserved", "before", "occupied")
	w := newWorld(a.c, WorldOpts{NoServe: true, Opts: []server.Option{bigCaps(), server.WithServerDiagnostics(r.Intn(2) == 0)}})
	a.prepare(w)
	if how == "unserved" || how == "before" {
		a.shut(w, pick(r, "once", "twice", "at once"))
		if how == "before" {
			if !within(5*time.Second, func() { w.Srv.ListenAndServe() }) {
				a.c.Violate("serve-closed", "ListenAndServe of a closed server does not return")
			}
		}
		a.c.Eval("life/" + how)
		return
	}
	if how == "occupied" {
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", w.Port))
		must(err)
		var serr error
		if !within(5*time.Second, func() { serr = w.Srv.ListenAndServe() }) || serr == nil {
			a.c.Violate("serve-occupied", "ListenAndServe at an address in use returns %v", serr)
		}
		a.shut(w, pick(r, "once", "twice", "at once"))
		ln.Close()
		a.c.Eval("life/" + how)
		return
	}
	ns := w.ensureNS()
	method := server.NewMethodNode(w.Srv, ua.NewNodeIDString(ns, "shutdown"), ua.NewQualifiedName(ns, "shutdown"), ua.NewLocalizedText("shutdown", ""), ua.NewLocalizedText("", ""), nil,
		[]ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasComponent, true, ua.NewExpandedNodeID(ua.ObjectIDServer))}, true)
	method.SetCallMethodHandler(func(*server.Session, ua.CallMethodRequest) ua.CallMethodResult {
		w.Srv.Close()
		return ua.CallMethodResult{}
	})
	must(w.Srv.NamespaceManager().AddNode(method))
	w.Serve()
	var stop atomic.Bool
	var wg sync.WaitGroup
	width := r.Intn(8)
	for g := 0; g < width; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				a.visit(w, rr, true, &stop)
			}
		}()
	}
	// one that only waits for the end
	var watch *AC
	if rc, err := w.RawSession(raw.None, 0); err == nil {
		watch = newAC(rc)
		if r.Intn(2) == 0 {
			if res, err := watch.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: 5, PublishingEnabled: true}); err == nil {
				id := res.(*ua.CreateSubscriptionResponse).SubscriptionID
				watch.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: id, ItemsToCreate: []ua.MonitoredItemCreateRequest{valueItem(ua.NewNodeIDString(ns, "polled"), 1, 100, 3, true, nil)}})
				newPublisher(watch, 3).pump()
			}
		}
	}
	if silent {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.Port))
		must(err)
		defer conn.Close()
	}
	time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
	t := time.Now()
	if how == "method" {
		rc, err := w.RawSession(raw.None, 0)
		must(err)
		rc.Conn.SetDeadline(time.Now().Add(15 * time.Second))
		rc.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.NewNodeIDString(ns, "shutdown")}}})
		if time.Since(t) > 10*time.Second {
			a.c.Violate("close-hang/method", "a server closed by a method takes %v", time.Since(t))
		}
		rc.Close()
	} else {
		a.shut(w, how)
	}
	limit := 10 * time.Second
	if silent {
		limit = 30 * time.Second
	}
	if watch != nil {
		select {
		case <-watch.closed:
		case <-time.After(10 * time.Second):
			a.c.Violate("connection", "the connection of a client is still open 10 s after Close returned (%s)", how)
		}
		watch.Close()
	}
	// new clients are refused while the address is free; one that came just in time may be left waiting
	for i := 0; i < 3; i++ {
		time.Sleep(200 * time.Millisecond)
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.Port), 2*time.Second)
		if err != nil {
			break
		}
		conn.SetReadDeadline(time.Now().Add(3 * time.Second))
		_, err = conn.Read(make([]byte, 1))
		conn.Close()
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			break
		}
		limit = 30 * time.Second
		if i == 2 {
			a.c.Violate("listening", "a closed server still accepts connections (%s)", how)
		}
	}
	stop.Store(true)
	if !within(15*time.Second, wg.Wait) {
		a.c.Violate("clients-hang/"+how, "clients of a closed server do not notice (%s)", how)
	}
	var serr error
	if !within(limit, func() { serr = <-w.Served }) {
		a.c.Violate("serve-hang/"+how, "ListenAndServe does not return within %v after Close (%s, %d clients)", limit, how, width)
		return
	}
	_ = serr
	a.c.Eval(fmt.Sprintf("life/%s/%d/%v", how, width, silent))
	if r.Intn(2) == 0 {
		if !within(10*time.Second, func() { w.Srv.Close() }) {
			a.c.Violate("close-again", "closing a server that has ended does not return")
		}
	}
	// the address can be used again
	w2 := newWorld(a.c, WorldOpts{Port: w.Port})
	rc, err := w2.RawSession(raw.None, 0)
	if err != nil {
		a.c.Violate("rebind", "a new server at the address of a closed one does not serve: %v", err)
	} else {
		rc.Close()
	}
	a.shut(w2, "once")
	if !within(10*time.Second, func() { <-w2.Served }) {
		a.c.Violate("serve-hang/second", "ListenAndServe does not return after Close")
	}
}

func runR02(c *Ctx) {
	r := c.Rng("main")
	a := &r02{c: c}
	end := time.Now().Add(time.Duration(c.N(20, 300)) * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 12; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(end) && !c.Violated(); i++ {
				a.life(rr, g < 2 && i == 0)
			}
		}()
	}
	if !within(time.Until(end)+120*time.Second, wg.Wait) {
		c.Violate("hang", "a scenario does not end")
		return
	}
	if c.Violated() {
		return
	}
	for t := time.Now(); ; time.Sleep(200 * time.Millisecond) {
		n, polls, ex := serverGoroutines()
		if n+polls == 0 {
			break
		}
		if time.Since(t) > 15*time.Second {
			c.Violate("closed-goroutines", "%d goroutines (%d poll groups) remain after all servers were closed, such as: %.700s", n, polls, ex)
			return
		}
	}
	c.Eval("closed-goroutines")
	n := a.reads.Load()
	time.Sleep(time.Second)
	if m := a.reads.Load(); m != n {
		c.Violate("closed-sampling", "closed servers still read a variable")
	}
	a.crowds(r)
}
