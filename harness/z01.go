package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("Z01", &check{run: runZ01, race: true, minEvals: 3000, minDistinct: 25,
		rule:        "the library and the harness run under the Go race detector while clients on many channels, application goroutines and shared library clients work on the same nodes, sessions and subscriptions, and while the server is closed; every race report whose two accesses are in the library (or a library write against a harness read of returned data) is a violation, and so is a worker that makes no progress",
		assumptions: []string{"the race detector sees only unsynchronised accesses of the executions produced; network traffic within the process orders some accesses and hides races between them"}})
}

type z01 struct {
	c     *Ctx
	w     *World
	stop  atomic.Bool
	wg    sync.WaitGroup
	mu    sync.Mutex
	slots []*z01Slot
	vars  []*server.VariableNode
	arr   []*server.VariableNode
	objs  []*server.ObjectNode
	meth  *server.MethodNode
	hub   *server.ObjectNode
	ns    uint16
	seq   atomic.Int64
	subs  sync.Map // ids of subscriptions that exist or existed
	last  atomic.Uint32
	ended atomic.Bool // the server is being closed: errors are expected
}

// z01Slot shows the watchdog what a worker does. Workers share nothing that orders them among each other: a lock or an
// atomic that several of them use would hide races from the race detector.
type z01Slot struct {
	name  string
	since atomic.Int64
	what  atomic.Pointer[string]
	evals map[string]int // the worker's own
}

func (z *z01) slot(name string) *z01Slot {
	sl := &z01Slot{name: name, evals: map[string]int{}}
	z.mu.Lock()
	z.slots = append(z.slots, sl)
	z.mu.Unlock()
	return sl
}

// step runs one operation of a worker and counts it; the watchdog sees how long it takes.
func (sl *z01Slot) step(what string, f func()) {
	sl.what.Store(&what)
	sl.since.Store(time.Now().UnixNano())
	f()
	sl.since.Store(0)
	sl.evals[what]++
}

func (z *z01) busy(limit time.Duration) (out []string) {
	z.mu.Lock()
	defer z.mu.Unlock()
	for _, sl := range z.slots {
		if t := sl.since.Load(); t != 0 && time.Since(time.Unix(0, t)) > limit {
			out = append(out, sl.name+": "+*sl.what.Load())
		}
	}
	return
}

// tally counts the steps of all workers, which have ended.
func (z *z01) tally() {
	for _, sl := range z.slots {
		k := strings.TrimRight(sl.name, "0123456789- ")
		for what, n := range sl.evals {
			for ; n > 0; n-- {
				z.c.Eval(k + " " + what)
				z.c.Count("steps_"+k, 1)
			}
		}
	}
}

func (z *z01) goWorker(name string, f func(r *rand.Rand)) {
	z.wg.Add(1)
	r := z.c.Rng("z01-" + name + strconv.FormatInt(z.seq.Add(1), 10))
	go func() {
		defer z.wg.Done()
		f(r)
	}()
}

func (z *z01) watchdog(limit time.Duration, done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		if worst := z.busy(limit); len(worst) > 0 {
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			z.c.Violate("blocked", "%v has not ended for %v\n%s", worst, limit, z01Blocked(string(buf)))
			return
		}
	}
}

// z01Blocked picks the goroutines of the library that wait for a lock or a channel.
func z01Blocked(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		h := strings.SplitN(g, "\n", 2)[0]
		if strings.Contains(g, "awcullen/opcua") && (strings.Contains(h, "sync.") || strings.Contains(h, "semacquire") || strings.Contains(h, "chan ")) {
			out = append(out, firstLines(g, 14))
		}
	}
	return tail(strings.Join(out, "\n\n"), 12000)
}

func (z *z01) build(r *rand.Rand) {
	w := z.w
	z.ns = w.ensureNS()
	nm := w.Srv.NamespaceManager()
	for i := 0; i < 6; i++ {
		z.vars = append(z.vars, w.addVar(VarSpec{Name: fmt.Sprintf("z%d", i), Value: int32(i), DataType: ua.DataTypeIDInt32, Rank: -1}))
	}
	for i := 0; i < 3; i++ {
		z.arr = append(z.arr, w.addVar(VarSpec{Name: fmt.Sprintf("za%d", i), Value: []int32{1, 2, 3, 4, 5, 6}, DataType: ua.DataTypeIDInt32, Rank: 1}))
	}
	z.vars[4].SetReadValueHandler(z01Read)
	z.vars[5].SetWriteValueHandler(z01Write)
	obj := func(name string, refs ...ua.Reference) *server.ObjectNode {
		n := server.NewObjectNode(w.Srv, ua.NewNodeIDString(z.ns, name), ua.NewQualifiedName(z.ns, name), ua.NewLocalizedText(name, ""), ua.LocalizedText{}, nil, refs, ua.EventNotifierSubscribeToEvents)
		must(nm.AddNode(n))
		return n
	}
	z.hub = obj("zhub", organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDFolderType), ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasNotifier, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDServer)})
	for i := 0; i < 3; i++ {
		z.objs = append(z.objs, obj(fmt.Sprintf("zo%d", i), organizedBy(z.hub.NodeID()), ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasNotifier, IsInverse: true, TargetID: ua.NewExpandedNodeID(z.hub.NodeID())}))
	}
	z.meth = server.NewMethodNode(w.Srv, ua.NewNodeIDString(z.ns, "zm"), ua.NewQualifiedName(z.ns, "zm"), ua.NewLocalizedText("zm", ""), ua.LocalizedText{}, nil, []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(z.hub.NodeID())}}, true)
	z.meth.SetCallMethodHandler(z01Call)
	must(nm.AddNode(z.meth))
}

func z01Read(s *server.Session, _ ua.ReadValueID) ua.DataValue {
	_ = s.UserIdentity()
	return ua.NewDataValue(int32(time.Now().Nanosecond()), 0, time.Now(), 0, time.Now(), 0)
}

func z01Write(s *server.Session, v ua.WriteValue) (ua.DataValue, ua.StatusCode) {
	_ = s.UserIdentity()
	return v.Value, ua.Good
}

func z01Call(s *server.Session, _ ua.CallMethodRequest) ua.CallMethodResult {
	_ = s.SessionId()
	return ua.CallMethodResult{StatusCode: ua.Good}
}

func (z *z01) anyNode(r *rand.Rand) ua.NodeID {
	switch r.Intn(8) {
	case 0:
		return ua.ObjectIDServer
	case 1:
		return z.hub.NodeID()
	case 2:
		return z.objs[r.Intn(len(z.objs))].NodeID()
	case 3:
		return z.arr[r.Intn(len(z.arr))].NodeID()
	case 4:
		return ua.NewNodeIDString(z.ns, fmt.Sprintf("zt%d", r.Intn(30)))
	}
	return z.vars[r.Intn(len(z.vars))].NodeID()
}

var z01Diag = []ua.NodeID{ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionSecurityDiagnosticsArray, ua.VariableIDServerServerStatus, ua.VariableIDServerServerStatusState, ua.VariableIDServerNamespaceArray, ua.VariableIDServerServerStatusCurrentTime, ua.VariableIDServerServerStatusShutdownReason, ua.VariableIDServerServerStatusSecondsTillShutdown, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCurrentSessionCount, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCurrentSubscriptionCount}

// request is a random request of many operations.
func (z *z01) request(r *rand.Rand, subs []uint32, items []uint32) (string, ua.ServiceRequest) {
	n := 1 + r.Intn(60)
	sub := func() uint32 {
		if len(subs) == 0 || r.Intn(12) == 0 {
			return z.last.Load()
		}
		return subs[r.Intn(len(subs))]
	}
	ids := func() (out []uint32) {
		for k := 1 + r.Intn(5); k > 0 && len(items) > 0; k-- {
			out = append(out, items[r.Intn(len(items))])
		}
		return
	}
	switch k := r.Intn(22); {
	case k < 3:
		var rd []ua.ReadValueID
		for ; n > 0; n-- {
			rd = append(rd, ua.ReadValueID{NodeID: z.anyNode(r), AttributeID: []uint32{13, 13, 13, 1, 2, 3, 4, 5, 12, 14, 15, 16, 17, 18, 20, 21, 22, 24, 25}[r.Intn(19)]})
		}
		return "read", &ua.ReadRequest{NodesToRead: rd, TimestampsToReturn: ua.TimestampsToReturnBoth}
	case k < 5:
		var rd []ua.ReadValueID
		for n = 1 + n/6; n > 0; n-- {
			rd = append(rd, ua.ReadValueID{NodeID: z01Diag[r.Intn(len(z01Diag))], AttributeID: ua.AttributeIDValue})
		}
		return "read diagnostics", &ua.ReadRequest{NodesToRead: rd}
	case k < 8:
		var wr []ua.WriteValue
		for ; n > 0; n-- {
			v := ua.WriteValue{NodeID: z.vars[r.Intn(len(z.vars))].NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(r.Int31(), 0, time.Time{}, 0, time.Time{}, 0)}
			if r.Intn(3) == 0 {
				v = ua.WriteValue{NodeID: z.arr[r.Intn(len(z.arr))].NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: "1:2", Value: ua.NewDataValue([]int32{r.Int31(), 2}, 0, time.Time{}, 0, time.Time{}, 0)}
			}
			if r.Intn(10) == 0 {
				v.AttributeID, v.Value = ua.AttributeIDHistorizing, ua.NewDataValue(r.Intn(2) == 0, 0, time.Time{}, 0, time.Time{}, 0)
			}
			wr = append(wr, v)
		}
		return "write", &ua.WriteRequest{NodesToWrite: wr}
	case k < 10:
		var bs []ua.BrowseDescription
		for n = 1 + n/3; n > 0; n-- {
			bs = append(bs, ua.BrowseDescription{NodeID: z.anyNode(r), BrowseDirection: ua.BrowseDirectionBoth, IncludeSubtypes: r.Intn(2) == 0, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, ResultMask: 63})
		}
		return "browse", &ua.BrowseRequest{NodesToBrowse: bs, RequestedMaxReferencesPerNode: uint32(r.Intn(4))}
	case k < 11:
		var ps []ua.BrowsePath
		for n = 1 + n/3; n > 0; n-- {
			ps = append(ps, ua.BrowsePath{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{IncludeSubtypes: true, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, TargetName: ua.NewQualifiedName(z.ns, "zhub")}, {IncludeSubtypes: true, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, TargetName: ua.NewQualifiedName(z.ns, "zo1")}}}})
		}
		return "translate", &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: ps}
	case k < 12:
		var cs []ua.CallMethodRequest
		for n = 1 + n/4; n > 0; n-- {
			m := ua.CallMethodRequest{ObjectID: z.hub.NodeID(), MethodID: z.meth.NodeID()}
			if r.Intn(3) == 0 {
				m = ua.CallMethodRequest{ObjectID: ua.ObjectIDServer, MethodID: pick[ua.NodeID](r, ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData), InputArguments: []ua.Variant{sub()}}
			}
			cs = append(cs, m)
		}
		return "call", &ua.CallRequest{MethodsToCall: cs}
	case k < 15:
		var is []ua.MonitoredItemCreateRequest
		for n = 1 + n/4; n > 0; n-- {
			switch r.Intn(5) {
			case 0:
				is = append(is, eventItem(z.objs[r.Intn(3)].NodeID(), uint32(n), 10, ua.MonitoringModeReporting, ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses}))
			case 1:
				is = append(is, eventItem(pick[ua.NodeID](r, ua.ObjectIDServer, z.hub.NodeID()), uint32(n), 2, ua.MonitoringModeReporting, ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses}))
			case 2:
				is = append(is, valueItem(z01Diag[r.Intn(len(z01Diag))], uint32(n), 50, 2, true, nil))
			default:
				is = append(is, valueItem(z.anyNode(r), uint32(n), []float64{0, 20, 50, -1}[r.Intn(4)], uint32(1+r.Intn(4)), r.Intn(2) == 0, nil))
			}
		}
		return "create items", &ua.CreateMonitoredItemsRequest{SubscriptionID: sub(), ItemsToCreate: is, TimestampsToReturn: ua.TimestampsToReturnBoth}
	case k < 16:
		var ms []ua.MonitoredItemModifyRequest
		for _, id := range ids() {
			ms = append(ms, ua.MonitoredItemModifyRequest{MonitoredItemID: id, RequestedParameters: ua.MonitoringParameters{ClientHandle: r.Uint32() % 100, SamplingInterval: 50, QueueSize: uint32(1 + r.Intn(5))}})
		}
		return "modify items", &ua.ModifyMonitoredItemsRequest{SubscriptionID: sub(), ItemsToModify: ms}
	case k < 17:
		return "monitoring mode", &ua.SetMonitoringModeRequest{SubscriptionID: sub(), MonitoringMode: ua.MonitoringMode(r.Intn(3)), MonitoredItemIDs: ids()}
	case k < 18:
		if len(items) > 0 {
			return "triggering", &ua.SetTriggeringRequest{SubscriptionID: sub(), TriggeringItemID: items[r.Intn(len(items))], LinksToAdd: ids()}
		}
		fallthrough
	case k < 19:
		return "delete items", &ua.DeleteMonitoredItemsRequest{SubscriptionID: sub(), MonitoredItemIDs: ids()}
	case k < 20:
		if r.Intn(2) == 0 {
			return "modify subscription", &ua.ModifySubscriptionRequest{SubscriptionID: sub(), RequestedPublishingInterval: float64(50 + r.Intn(100)), RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: uint32(1 + r.Intn(4))}
		}
		return "publishing mode", &ua.SetPublishingModeRequest{PublishingEnabled: r.Intn(4) > 0, SubscriptionIDs: []uint32{sub(), sub()}}
	case k < 21:
		return "transfer", &ua.TransferSubscriptionsRequest{SubscriptionIDs: []uint32{z.last.Load()}, SendInitialValues: r.Intn(2) == 0}
	}
	return "republish", &ua.RepublishRequest{SubscriptionID: sub(), RetransmitSequenceNumber: uint32(1 + r.Intn(9))}
}

// session is a client with a session: it makes requests, publishes, changes its user and goes in some way.
func (z *z01) session(name string, r *rand.Rand) {
	sl := z.slot(name)
	for !z.stop.Load() {
		var rc *raw.Client
		var err error
		sl.step("connect", func() {
			rc, err = z.w.Raw(raw.None, raw.ModeNone)
			if err != nil {
				return
			}
			rc.Conn.SetDeadline(time.Now().Add(60 * time.Second))
			if _, err = rc.CreateSession("z01", float64(300+r.Intn(3000))); err == nil {
				err = rc.ActivateAnonymous()
			}
		})
		if err != nil {
			if rc != nil {
				rc.Conn.Close()
			}
			if _, ok := err.(ua.StatusCode); !ok && !z.ended.Load() {
				time.Sleep(20 * time.Millisecond)
			}
			if z.ended.Load() {
				return
			}
			continue
		}
		rc.Conn.SetDeadline(time.Time{})
		ac := newAC(rc)
		var subs, items []uint32
		for k := r.Intn(3); k > 0; k-- {
			sl.step("create subscription", func() {
				res, err := ac.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(50 + r.Intn(100)), RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: uint32(1 + r.Intn(3)), PublishingEnabled: true, MaxNotificationsPerPublish: uint32(r.Intn(2) * 5)})
				if x, ok := res.(*ua.CreateSubscriptionResponse); ok && err == nil {
					subs = append(subs, x.SubscriptionID)
					z.last.Store(x.SubscriptionID)
				}
			})
		}
		p := newPublisher(ac, r.Intn(5))
		p.pump()
		lost := false
		for k := 5 + r.Intn(40); k > 0 && !z.stop.Load() && !lost; k-- {
			what, req := z.request(r, subs, items)
			sl.step(what, func() {
				res, err := ac.Do(req)
				if _, ok := err.(ua.StatusCode); err != nil && !ok {
					lost = true
				}
				if x, ok := res.(*ua.CreateMonitoredItemsResponse); ok && err == nil {
					for _, m := range x.Results {
						if m.StatusCode == ua.Good {
							items = append(items, m.MonitoredItemID)
						}
					}
				}
			})
		}
		p.Stop()
		switch r.Intn(4) {
		case 0:
			sl.step("close session", func() { ac.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}) })
		case 1:
			sl.step("keep subscriptions", func() { ac.Do(&ua.CloseSessionRequest{}) })
		}
		sl.step("disconnect", func() { ac.Close() })
	}
}

// app changes values, handlers and nodes and raises events, as the application of the server does.
func (z *z01) app(name string, r *rand.Rand) {
	sl := z.slot(name)
	nm := z.w.Srv.NamespaceManager()
	for !z.stop.Load() {
		switch r.Intn(12) {
		case 0, 1, 2:
			sl.step("set value", func() {
				for k := 0; k < 20; k++ {
					z.vars[r.Intn(len(z.vars))].SetValue(ua.NewDataValue(r.Int31(), 0, time.Now(), 0, time.Now(), 0))
					z.arr[r.Intn(len(z.arr))].SetValue(ua.NewDataValue([]int32{1, 2, 3, 4, 5, r.Int31()}, 0, time.Now(), 0, time.Now(), 0))
				}
			})
		case 3, 4:
			sl.step("get value", func() {
				s := int32(0)
				for k := 0; k < 20; k++ {
					_ = z.vars[r.Intn(len(z.vars))].Value()
					for _, x := range z.arr[r.Intn(len(z.arr))].Value().Value.([]int32) {
						s += x
					}
				}
			})
		case 5:
			sl.step("handlers", func() {
				z.vars[4].SetReadValueHandler(z01Read)
				z.vars[5].SetWriteValueHandler(z01Write)
				z.meth.SetCallMethodHandler(z01Call)
				z.vars[3].SetHistorizing(false)
				_ = z.vars[3].Historizing()
			})
		case 6, 7:
			sl.step("events", func() {
				for k := 0; k < 10; k++ {
					e := &ua.BaseEvent{EventID: ua.ByteString(fmt.Sprint(z.seq.Add(1))), EventType: ua.ObjectTypeIDBaseEventType, SourceNode: z.hub.NodeID(), SourceName: "z", Time: time.Now(), ReceiveTime: time.Now(), Message: ua.NewLocalizedText("m", ""), Severity: 500}
					nm.OnEvent(z.objs[r.Intn(3)], e)
				}
			})
		case 8, 9:
			sl.step("nodes", func() {
				id := ua.NewNodeIDString(z.ns, fmt.Sprintf("zt%d", r.Intn(30)))
				if n, ok := nm.FindNode(id); ok {
					nm.DeleteNode(n, r.Intn(2) == 0)
					return
				}
				v := server.NewVariableNode(z.w.Srv, id, ua.NewQualifiedName(z.ns, "t"), ua.NewLocalizedText("t", ""), ua.LocalizedText{}, nil,
					[]ua.Reference{organizedBy(z.objs[r.Intn(3)].NodeID()), hasTypeDef(ua.VariableTypeIDBaseDataVariableType)}, ua.NewDataValue(r.Int31(), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, 3, 0, false, nil)
				nm.AddNodes(v)
			})
		case 10:
			sl.step("lookups", func() {
				for k := 0; k < 10; k++ {
					nm.FindNode(z.anyNode(r))
					nm.FindComponent(z.hub, ua.NewQualifiedName(z.ns, "zm"))
					nm.FindProperty(z.vars[0], ua.NewQualifiedName(0, "none"))
					nm.IsSubtype(ua.DataTypeIDInt32, ua.DataTypeIDNumber)
					for _, n := range nm.GetChildren(z.hub, nm.NamespaceUris(), []ua.NodeID{ua.ReferenceTypeIDOrganizes}) {
						for _, f := range n.References() {
							_ = f.TargetID
						}
					}
					nm.FindVariantType(ua.DataTypeIDDuration)
					_ = len(nm.NamespaceUris())
				}
			})
		default:
			sl.step("server", func() {
				nm.Add(fmt.Sprintf("urn:z01:%d", z.seq.Load()%40))
				_ = z.w.Srv.State()
				_ = len(z.w.Srv.NamespaceUris())
				_ = z.w.Srv.SessionManager().Len()
				_ = z.w.Srv.SubscriptionManager().Len()
				_ = z.w.Srv.EndpointURL()
			})
		}
	}
}

// shared is a library client that many goroutines use at once, until it is closed under them.
func (z *z01) shared(name string, r *rand.Rand) {
	sl := z.slot(name)
	for n := 0; !z.stop.Load(); n++ {
		var cl *client.Client
		var err error
		sl.step("dial", func() {
			ctx, cancel := ctxT(40 * time.Second)
			defer cancel()
			cl, err = client.Dial(ctx, fmt.Sprintf("opc.tcp://127.0.0.1:%d", z.w.Port), client.WithSecurityPolicyURI(ua.SecurityPolicyURINone, ua.MessageSecurityModeNone), client.WithSessionTimeout(20000), client.WithTokenLifetime(2000))
		})
		if err != nil {
			if z.ended.Load() {
				return
			}
			time.Sleep(50 * time.Millisecond)
			continue
		}
		var wg sync.WaitGroup
		var quit atomic.Bool
		for k := 0; k < 6; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			us := z.slot(fmt.Sprintf("library client user %d-%d", n, k))
			go func() {
				defer wg.Done()
				for !quit.Load() {
					ctx, cancel := context.WithTimeout(bg(), time.Duration(1+rr.Intn(2000))*time.Millisecond)
					op := rr.Intn(6)
					us.step([]string{"write", "browse", "subscribe", "publish", "read and ask", "read"}[op], func() {
						switch op {
						case 0:
							cl.Write(ctx, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: z.vars[rr.Intn(4)].NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(rr.Int31(), 0, time.Time{}, 0, time.Time{}, 0)}}})
						case 1:
							cl.Browse(ctx, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: z.hub.NodeID(), BrowseDirection: ua.BrowseDirectionBoth, ResultMask: 63}}})
						case 2:
							cl.CreateSubscription(ctx, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 50, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 2, PublishingEnabled: true})
						case 3:
							cl.Publish(ctx, &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 1500}})
						case 4:
							_, _ = cl.EndpointURL(), cl.SessionID()
							_ = cl.IsClosing()
							fallthrough
						default:
							cl.Read(ctx, readReq(z.vars[rr.Intn(4)].NodeID()))
						}
					})
					cancel()
				}
			}()
		}
		for end := time.Now().Add(time.Duration(500+r.Intn(4000)) * time.Millisecond); time.Now().Before(end) && !z.stop.Load(); {
			time.Sleep(50 * time.Millisecond)
		}
		if r.Intn(3) == 0 {
			quit.Store(true)
		}
		sl.step("close", func() {
			if r.Intn(3) == 0 {
				cl.Abort(bg())
				return
			}
			ctx, cancel := ctxT(20 * time.Second)
			defer cancel()
			cl.Close(ctx)
		})
		quit.Store(true)
		sl.step("join", wg.Wait)
	}
}

func (z *z01) round(r *rand.Rand, d time.Duration, k int) {
	z.w = newWorld(z.c, WorldOpts{Opts: []server.Option{server.WithMaxSessionCount(30), server.WithServerDiagnostics(true)}})
	z.build(r)
	done := make(chan struct{})
	go z.watchdog(90*time.Second, done)
	defer close(done)
	for i := 0; i < 7; i++ {
		n := fmt.Sprintf("session%d", i)
		z.goWorker(n, func(r *rand.Rand) { z.session(n, r) })
	}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("application%d", i)
		z.goWorker(n, func(r *rand.Rand) { z.app(n, r) })
	}
	for i := 0; i < 2; i++ {
		n := fmt.Sprintf("library client%d", i)
		z.goWorker(n, func(r *rand.Rand) { z.shared(n, r) })
	}
	time.Sleep(d)
	// the server is closed while everything goes on
	z.ended.Store(true)
	z.slot("application").step("close server", func() { z.w.Srv.Close() })
	time.Sleep(300 * time.Millisecond)
	z.stop.Store(true)
	if !within(100*time.Second, z.wg.Wait) {
		z.c.Violate("blocked", "workers do not end: %v", z.busy(0))
		return
	}
	z.tally()
}

func runZ01(c *Ctx) {
	r := c.Rng("z01")
	for k := 0; k < c.N(2, 20) && !c.Violated(); k++ {
		z := &z01{c: c}
		z.round(r, time.Duration(c.N(20, 60))*time.Second, k)
	}
	time.Sleep(time.Second)
	z01Reports(c)
}

type z01Access struct {
	write bool
	fn    string
	file  string
	line  int
	stack []string // the places of the library on the stack, "file:line"
}

var (
	z01FnRe   = regexp.MustCompile(`^  (\S.*)\(\)$`)
	z01FileRe = regexp.MustCompile(`^      (/\S+):(\d+)`)
)

// z01Parse finds the two accesses of each race report; the frames of the runtime and the standard library are passed over.
func z01Parse(log string) (out [][2]z01Access, reports []string) {
	for _, rep := range strings.Split(log, "WARNING: DATA RACE")[1:] {
		var acc []z01Access
		cur := -1
		fn := ""
		for _, l := range strings.Split(rep, "\n") {
			low := strings.ToLower(l)
			switch {
			case strings.Contains(low, " by goroutine ") || strings.Contains(low, " by main goroutine"):
				acc = append(acc, z01Access{write: strings.Contains(low, "write at")})
				cur = len(acc) - 1
				fn = ""
			case strings.HasPrefix(l, "Goroutine "):
				cur = -1
			case cur >= 0:
				if m := z01FnRe.FindStringSubmatch(l); m != nil {
					fn = m[1]
				} else if m := z01FileRe.FindStringSubmatch(l); m != nil {
					lib := strings.HasPrefix(fn, "github.com/awcullen/opcua/")
					if acc[cur].fn == "" && (lib || strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "verifharness/")) {
						acc[cur].fn, acc[cur].file = fn, m[1]
						acc[cur].line, _ = strconv.Atoi(m[2])
					}
					if lib {
						acc[cur].stack = append(acc[cur].stack, m[1]+":"+m[2])
					}
				}
			}
		}
		if len(acc) == 2 {
			out = append(out, [2]z01Access{acc[0], acc[1]})
			reports = append(reports, rep)
		}
	}
	return
}

func (a z01Access) lib() bool { return strings.HasPrefix(a.fn, "github.com/awcullen/opcua/") }

// z01CounterRe matches the increments and copies of statistics counters, which only the diagnostics read. The counters
// that decide about keep-alives, lifetimes and limits are not among them.
var z01CounterRe = regexp.MustCompile(`\.((?:Rejected|SecurityRejected|Cumulated|Current|SessionTimeout|SessionAbort|PublishingInterval)[A-Za-z]*Count|monitoringQueueOverflowCount|latePublishRequestCount|(?:unauthorizedRequest|request|error|[a-zA-Z]+Error|read|historyRead|write|historyUpdate|call|createMonitoredItems|modifyMonitoredItems|setMonitoringMode|setTriggering|deleteMonitoredItems|createSubscription|modifySubscription|setPublishingMode|publish|republish|transferSubscriptions|deleteSubscriptions|browse|browseNext|translateBrowsePathsToNodeIds|queryFirst|queryNext|registerNodes|unregisterNodes)Count)\b`)

// counter returns the name of the statistics counter the access belongs to.
func (a z01Access) counter() string {
	for k, at := range a.stack {
		if k == 3 {
			break
		}
		p := strings.LastIndexByte(at, ':')
		n, _ := strconv.Atoi(at[p+1:])
		b, err := os.ReadFile(at[:p])
		if err != nil {
			return ""
		}
		if ls := strings.Split(string(b), "\n"); n >= 1 && n <= len(ls) {
			if m := z01CounterRe.FindStringSubmatch(ls[n-1]); m != nil {
				return m[1]
			}
		}
	}
	return ""
}

func z01Key(a, b z01Access) string {
	x, y := strings.TrimPrefix(a.fn, "github.com/awcullen/opcua/"), strings.TrimPrefix(b.fn, "github.com/awcullen/opcua/")
	if x > y {
		x, y = y, x
	}
	return x + "|" + y
}

func z01Reports(c *Ctx) {
	fs, _ := filepath.Glob(filepath.Join(c.Dir, "race.*"))
	seen := map[string]int{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		accs, reps := z01Parse(string(b))
		for i, p := range accs {
			a, o := p[0], p[1]
			c.Count("race_reports", 1)
			key := ""
			switch {
			case a.lib() && o.lib():
				key = "race:" + z01Key(a, o)
				if n := a.counter(); n != "" {
					key = "race:counter:" + n
				} else if n := o.counter(); n != "" {
					key = "race:counter:" + n
				}
			case a.lib() && a.write && !o.write || o.lib() && o.write && !a.write:
				key = "race:returned:" + z01Key(a, o)
			default:
				c.Count("race_reports_of_the_harness", 1)
				continue
			}
			seen[key]++
			if seen[key] == 1 {
				c.Violate(key, "data race: %s", firstLines(strings.TrimSpace(reps[i]), 34))
			}
		}
	}
}
