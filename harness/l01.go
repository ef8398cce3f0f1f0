package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("L01", &check{run: runL01, minEvals: 300, minDistinct: 100,
		rule: "distinct (service, number of operations, mix of failing operations) requests on servers with distinct per-service limits; results judged one per operation against the same operation sent alone"})
}

// l01Svc describes a service taking a list of operations.
type l01Svc struct {
	name  string
	limit ua.NodeID // variable that advertises the limit; nil = none
	// build makes a request with the given operations; good/bad says which must succeed.
	build func(n int, r *rand.Rand) (req ua.ServiceRequest, good []bool)
	// results extracts the per-operation statuses.
	results func(res ua.ServiceResponse) []ua.StatusCode
	effect  func() string // observable state that a refused request must not change
}

func statuses(res ua.ServiceResponse) []ua.StatusCode {
	v := reflect.ValueOf(res).Elem()
	f := v.FieldByName("Results")
	if !f.IsValid() {
		return nil
	}
	var out []ua.StatusCode
	for i := 0; i < f.Len(); i++ {
		e := f.Index(i)
		if sc, ok := e.Interface().(ua.StatusCode); ok {
			out = append(out, sc)
		} else {
			out = append(out, e.FieldByName("StatusCode").Interface().(ua.StatusCode))
		}
	}
	return out
}

func runL01(c *Ctx) {
	r := c.Rng("l01")
	for round := 0; round < c.N(4, 40) && !c.Violated(); round++ {
		l01Round(c, r, round)
	}
}

func l01Round(c *Ctx, r *rand.Rand, round int) {
	caps := ua.NewServerCapabilities()
	lim := func() uint32 { return uint32(3 + r.Intn(40)) }
	ol := &ua.OperationLimits{MaxNodesPerRead: lim() + 20, MaxNodesPerHistoryReadData: lim(), MaxNodesPerHistoryReadEvents: lim(), MaxNodesPerWrite: lim(), MaxNodesPerHistoryUpdateData: lim(), MaxNodesPerHistoryUpdateEvents: lim(), MaxNodesPerMethodCall: lim(), MaxNodesPerBrowse: lim(), MaxNodesPerRegisterNodes: lim(), MaxNodesPerTranslateBrowsePathsToNodeIds: lim(), MaxNodesPerNodeManagement: lim(), MaxMonitoredItemsPerCall: lim()}
	if round%4 == 0 {
		ol = ua.NewOperationLimits()
		for _, p := range []*uint32{&ol.MaxNodesPerRead, &ol.MaxNodesPerWrite, &ol.MaxNodesPerBrowse, &ol.MaxNodesPerMethodCall, &ol.MaxMonitoredItemsPerCall} {
			*p = 1
		}
		ol.MaxNodesPerRead = 12
	}
	caps.OperationLimits = ol
	hist := &recHistorian{}
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(caps), server.WithHistorian(hist)}})
	defer func() { go w.Srv.Close() }()
	ns := w.ensureNS()
	nm := w.Srv.NamespaceManager()
	calls := 0
	const nv = 60
	for i := 0; i < nv; i++ {
		w.addVar(VarSpec{Name: fmt.Sprintf("L01.%d", i), Value: int32(i), DataType: ua.DataTypeIDInt32, Access: 0x0f})
	}
	id := func(i int) ua.NodeID { return ua.NewNodeIDString(ns, fmt.Sprintf("L01.%d", i%nv)) }
	absent := func(i int) ua.NodeID { return ua.NewNodeIDString(ns, fmt.Sprintf("L01.absent.%d", i)) }
	m := server.NewMethodNode(w.Srv, ua.NewNodeIDString(ns, "L01.m"), ua.NewQualifiedName(ns, "m"), ua.NewLocalizedText("m", ""), ua.LocalizedText{}, nil, []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDServer)}}, true)
	must(nm.AddNode(m))
	m.SetCallMethodHandler(func(_ *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
		calls++ // one session, results judged only after the response
		return ua.CallMethodResult{OutputArguments: q.InputArguments}
	})
	s, err := w.RawSession(raw.None, raw.ModeNone)
	if err != nil {
		c.Inconclusive("session: %v", err)
		return
	}
	defer s.Close()
	res, err := s.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 60000, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true})
	if err != nil {
		c.Inconclusive("subscription: %v", err)
		return
	}
	sub := res.(*ua.CreateSubscriptionResponse).SubscriptionID
	var items []uint32
	for i := 0; i < 70; i++ {
		q := &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: id(i), AttributeID: 13}, MonitoringMode: ua.MonitoringModeDisabled, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), SamplingInterval: 1000}}}}
		res, err := s.Do(q)
		if err != nil {
			c.Violate("service", "create monitored item: %v", err)
			return
		}
		items = append(items, res.(*ua.CreateMonitoredItemsResponse).Results[0].MonitoredItemID)
	}
	readAll := func() string {
		t := ""
		for i := 0; i < nv; i++ {
			n, _ := nm.FindVariable(id(i))
			t += fmt.Sprint(n.Value().Value, " ")
		}
		return t
	}
	subState := func() string {
		sb, ok := w.Srv.SubscriptionManager().Get(sub)
		if !ok {
			return "gone"
		}
		return fmt.Sprint(len(sb.Items()))
	}
	flags := func(n int, r *rand.Rand) []bool {
		g := make([]bool, n)
		for i := range g {
			g[i] = r.Intn(3) > 0
		}
		return g
	}
	handle := uint32(1000)
	svcs := []*l01Svc{
		{name: "Read", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRead, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.ReadRequest{}
			for i := range g {
				x := ua.ReadValueID{NodeID: id(i), AttributeID: 13}
				if !g[i] {
					x.NodeID = absent(i)
				}
				q.NodesToRead = append(q.NodesToRead, x)
			}
			return q, g
		}},
		{name: "Write", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerWrite, effect: readAll, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.WriteRequest{}
			for i := range g {
				x := ua.WriteValue{NodeID: id(i), AttributeID: 13, Value: ua.DataValue{Value: int32(r.Int31())}}
				if !g[i] {
					x.Value.Value = "wrong type"
				}
				q.NodesToWrite = append(q.NodesToWrite, x)
			}
			return q, g
		}},
		{name: "Browse", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerBrowse, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.BrowseRequest{}
			for i := range g {
				x := ua.BrowseDescription{NodeID: id(i)}
				if !g[i] {
					x.NodeID = absent(i)
				}
				q.NodesToBrowse = append(q.NodesToBrowse, x)
			}
			return q, g
		}},
		{name: "BrowseNext", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerBrowse, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.BrowseNextRequest{}
			for i := 0; i < n; i++ {
				q.ContinuationPoints = append(q.ContinuationPoints, ua.ByteString(fmt.Sprintf("x%03d", i)))
			}
			return q, make([]bool, n)
		}},
		{name: "Translate", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerTranslateBrowsePathsToNodeIDs, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.TranslateBrowsePathsToNodeIDsRequest{}
			for i := range g {
				x := ua.BrowsePath{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.NewQualifiedName(ns, fmt.Sprintf("L01.%d", i%nv))}}}}
				if !g[i] {
					x.RelativePath.Elements[0].TargetName.Name = "absent"
				}
				q.BrowsePaths = append(q.BrowsePaths, x)
			}
			return q, g
		}},
		{name: "Call", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerMethodCall, effect: func() string { return fmt.Sprint(calls) }, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.CallRequest{}
			for i := range g {
				x := ua.CallMethodRequest{ObjectID: ua.ObjectIDServer, MethodID: m.NodeID(), InputArguments: []ua.Variant{int32(i)}}
				if !g[i] {
					x.MethodID = absent(i)
				}
				q.MethodsToCall = append(q.MethodsToCall, x)
			}
			return q, g
		}},
		{name: "RegisterNodes", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRegisterNodes, results: func(res ua.ServiceResponse) []ua.StatusCode {
			return make([]ua.StatusCode, len(res.(*ua.RegisterNodesResponse).RegisteredNodeIDs))
		}, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.RegisterNodesRequest{}
			g := make([]bool, n)
			for i := range g {
				g[i] = true
				q.NodesToRegister = append(q.NodesToRegister, id(i))
			}
			return q, g
		}},
		{name: "UnregisterNodes", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRegisterNodes, results: func(res ua.ServiceResponse) []ua.StatusCode { return nil }, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.UnregisterNodesRequest{}
			for i := 0; i < n; i++ {
				q.NodesToUnregister = append(q.NodesToUnregister, id(i))
			}
			return q, nil
		}},
		{name: "HistoryRead", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryReadData, effect: func() string { return fmt.Sprint(hist.count()) }, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.HistoryReadRequest{HistoryReadDetails: ua.ReadRawModifiedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now()}, TimestampsToReturn: ua.TimestampsToReturnBoth}
			g := make([]bool, n)
			for i := range g {
				g[i] = true
				q.NodesToRead = append(q.NodesToRead, ua.HistoryReadValueID{NodeID: id(i)})
			}
			return q, g
		}},
		{name: "HistoryReadEvents", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryReadEvents, effect: func() string { return fmt.Sprint(hist.count()) }, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.HistoryReadRequest{HistoryReadDetails: ua.ReadEventDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now()}, TimestampsToReturn: ua.TimestampsToReturnBoth}
			g := make([]bool, n)
			for i := range g {
				g[i] = true
				q.NodesToRead = append(q.NodesToRead, ua.HistoryReadValueID{NodeID: ua.ObjectIDServer})
			}
			return q, g
		}},
		{name: "CreateMonitoredItems", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall, effect: subState, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth}
			for i := range g {
				x := ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id(i), AttributeID: 13}, MonitoringMode: ua.MonitoringModeDisabled, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), SamplingInterval: 1000}}
				if !g[i] {
					x.ItemToMonitor.NodeID = absent(i)
				}
				q.ItemsToCreate = append(q.ItemsToCreate, x)
			}
			return q, g
		}},
		{name: "ModifyMonitoredItems", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth}
			for i := range g {
				x := ua.MonitoredItemModifyRequest{MonitoredItemID: items[i%len(items)], RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), SamplingInterval: 1000}}
				if !g[i] {
					x.MonitoredItemID = 4000000000 + uint32(i)
				}
				q.ItemsToModify = append(q.ItemsToModify, x)
			}
			return q, g
		}},
		{name: "SetMonitoringMode", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: ua.MonitoringModeDisabled}
			for i := range g {
				x := items[i%len(items)]
				if !g[i] {
					x = 4000000000 + uint32(i)
				}
				q.MonitoredItemIDs = append(q.MonitoredItemIDs, x)
			}
			return q, g
		}},
		{name: "SetTriggering", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall, results: func(res ua.ServiceResponse) []ua.StatusCode {
			x := res.(*ua.SetTriggeringResponse)
			return append(append([]ua.StatusCode{}, x.AddResults...), x.RemoveResults...)
		}, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.SetTriggeringRequest{SubscriptionID: sub, TriggeringItemID: items[0]}
			for i := range g {
				x := items[1+i%(len(items)-1)]
				if !g[i] {
					x = 4000000000 + uint32(i)
				}
				q.LinksToAdd = append(q.LinksToAdd, x)
			}
			return q, g
		}},
		{name: "DeleteMonitoredItems", limit: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall, effect: subState, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.DeleteMonitoredItemsRequest{SubscriptionID: sub}
			for i := 0; i < n; i++ {
				q.MonitoredItemIDs = append(q.MonitoredItemIDs, 4000000000+uint32(i))
			}
			return q, make([]bool, n)
		}},
		{name: "SetPublishingMode", build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			g := flags(n, r)
			q := &ua.SetPublishingModeRequest{PublishingEnabled: true}
			for i := range g {
				x := sub
				if !g[i] {
					x = 4000000000 + uint32(i)
				}
				q.SubscriptionIDs = append(q.SubscriptionIDs, x)
			}
			return q, g
		}},
		{name: "DeleteSubscriptions", effect: subState, build: func(n int, r *rand.Rand) (ua.ServiceRequest, []bool) {
			q := &ua.DeleteSubscriptionsRequest{}
			for i := 0; i < n; i++ {
				q.SubscriptionIDs = append(q.SubscriptionIDs, 4000000000+uint32(i))
			}
			return q, make([]bool, n)
		}},
	}
	advertised := func(l ua.NodeID) int {
		if l == nil {
			return 1 << 30
		}
		res, err := s.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: l, AttributeID: 13}}})
		if err != nil {
			c.Violate("service", "reading limit %v: %v", l, err)
			return 1 << 30
		}
		x, _ := res.(*ua.ReadResponse).Results[0].Value.(uint32)
		return int(x)
	}
	for _, sv := range svcs {
		max := advertised(sv.limit)
		sizes := []int{0, 1, 2, 5}
		if max < 1<<20 {
			sizes = []int{0, 1, max - 1, max, max + 1, max + 2, 2 * max, 300}
		}
		for _, n := range sizes {
			if n < 0 {
				continue
			}
			req, good := sv.build(n, r)
			handle += 7
			req.Header().RequestHandle = handle
			before := ""
			if sv.effect != nil {
				before = sv.effect()
			}
			res, err := s.Do(req)
			c.Eval(fmt.Sprintf("%s/%d/%d/%v", sv.name, n, max, good))
			what := fmt.Sprintf("%s with %d operations (limit %d)", sv.name, n, max)
			if res == nil {
				c.Violate("service", "%s: %v", what, err)
				return
			}
			if res.Header().RequestHandle != handle {
				c.Violate("handle", "%s: response handle %d, request handle %d", what, res.Header().RequestHandle, handle)
			}
			if n == 0 || n > max {
				want := ua.BadNothingToDo
				if n > 0 {
					want = ua.BadTooManyOperations
				}
				if err != want {
					c.Violate("limit:"+sv.name, "%s: result %v, expected %v", what, err, want)
				}
				if sv.effect != nil && sv.effect() != before {
					c.Violate("effect:"+sv.name, "%s was refused but changed state from %s to %s", what, clip(before), clip(sv.effect()))
				}
				continue
			}
			if err != nil {
				c.Violate("limit:"+sv.name, "%s: refused with %v", what, err)
				continue
			}
			rs := statuses(res)
			if sv.results != nil {
				rs = sv.results(res)
			}
			if sv.name == "UnregisterNodes" {
				continue
			}
			if len(rs) != n {
				c.Violate("count:"+sv.name, "%s: %d results", what, len(rs))
				continue
			}
			for i := range rs {
				if rs[i].IsBad() == good[i] {
					c.Violate("result:"+sv.name, "%s: operation %d has status %#x, expected success=%v (pattern %v)", what, i, uint32(rs[i]), good[i], good)
					break
				}
			}
			c.Sample("batch", map[string]any{"service": sv.name, "operations": n, "limit": max})
		}
	}
	// unsupported services
	for _, req := range []ua.ServiceRequest{&ua.AddNodesRequest{}, &ua.AddReferencesRequest{}, &ua.DeleteNodesRequest{}, &ua.DeleteReferencesRequest{}, &ua.QueryFirstRequest{}, &ua.QueryNextRequest{}, &ua.HistoryUpdateRequest{}, &ua.TransferSubscriptionsRequest{}, &ua.FindServersOnNetworkRequest{}, &ua.RegisterServerRequest{}, &ua.RegisterServer2Request{}} {
		handle += 7
		req.Header().RequestHandle = handle
		res, err := s.Do(req)
		c.Eval(fmt.Sprintf("unsupported/%T", req))
		if res == nil {
			c.Violate("unsupported", "%T: %v", req, err)
			return
		}
		if _, ok := res.(*ua.ServiceFault); !ok || err != ua.BadServiceUnsupported || res.Header().RequestHandle != handle {
			c.Violate("unsupported", "%T answered with %T %v handle %d (want fault BadServiceUnsupported handle %d)", req, res, err, res.Header().RequestHandle, handle)
		}
	}
	// handles of every other service, including faults
	for _, req := range []ua.ServiceRequest{&ua.CancelRequest{}, &ua.GetEndpointsRequest{EndpointURL: w.URL}, &ua.FindServersRequest{EndpointURL: w.URL}, &ua.RepublishRequest{SubscriptionID: 1 << 30}, &ua.ModifySubscriptionRequest{SubscriptionID: 1 << 30}, &ua.CloseSessionRequest{}, &ua.ReadRequest{}, &ua.CallRequest{}} {
		handle += 7
		req.Header().RequestHandle = handle
		res, err := s.Do(req)
		c.Eval(fmt.Sprintf("handle/%T", req))
		if res == nil {
			c.Violate("handle", "%T: %v", req, err)
			return
		}
		if res.Header().RequestHandle != handle {
			c.Violate("handle", "%T: response handle %d, want %d", req, res.Header().RequestHandle, handle)
		}
	}
}
