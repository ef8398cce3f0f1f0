package main

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("A01", &check{run: runA01, minEvals: 3000, minDistinct: 300,
		rule: "every (user, node, operation) outcome compared with a role/permission/access-level model; distinct = distinct (operation, node class, granted bits, access level, outcome)"})
}

type a01Node struct {
	id    ua.NodeID
	name  string
	class ua.NodeClass
	perms []ua.RolePermissionType // nil: server defaults
	al    byte
	exec  bool
	hist  bool
	ev    byte
	node  server.Node
	cur   int64 // last value, sequential phases only
	mu    sync.Mutex
	calls int64 // handler invocations
	by    map[string]int64
}

type a01World struct {
	c        *Ctx
	w        *World
	ns       uint16
	roles    []ua.NodeID
	users    map[string][]ua.NodeID // nil entry: roles provider returns an error
	defaults []ua.RolePermissionType
	nodes    []*a01Node
	root     *server.ObjectNode
	hist     *recHistorian
	val      int64
}

const a01Bits = 18

func a01Perm(r *rand.Rand) ua.PermissionType {
	var p ua.PermissionType
	for i := 0; i < a01Bits; i++ {
		if r.Intn(5) < 2 {
			p |= 1 << i
		}
	}
	if r.Intn(3) > 0 {
		p |= ua.PermissionTypeBrowse
	}
	return p
}

func (a *a01World) randPerms(r *rand.Rand) []ua.RolePermissionType {
	out := []ua.RolePermissionType{}
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		out = append(out, ua.RolePermissionType{RoleID: a.roles[r.Intn(len(a.roles))], Permissions: a01Perm(r)})
	}
	return out
}

// granted returns the model's permissions of a user on a node, and the entries that are its own.
func (a *a01World) granted(user string, n *a01Node) (ua.PermissionType, map[string]int) {
	perms := n.perms
	if perms == nil {
		perms = a.defaults
	}
	var p ua.PermissionType
	own := map[string]int{}
	mine := map[ua.NodeID]bool{}
	for _, role := range a.users[user] {
		mine[role] = true
	}
	for _, rp := range perms {
		if mine[rp.RoleID] {
			p |= rp.Permissions
			own[fmt.Sprintf("%v/%d", rp.RoleID, rp.Permissions)]++
		}
	}
	return p, own
}

func newA01World(c *Ctx, r *rand.Rand) *a01World {
	a := &a01World{c: c, users: map[string][]ua.NodeID{}, hist: &recHistorian{}}
	for i := 0; i < 4; i++ {
		a.roles = append(a.roles, ua.NewNodeIDString(1, fmt.Sprintf("role%d", i)))
	}
	a.roles = append(a.roles, ua.ObjectIDWellKnownRoleAnonymous, ua.ObjectIDWellKnownRoleAuthenticatedUser, ua.ObjectIDWellKnownRoleOperator, ua.ObjectIDWellKnownRoleSecurityAdmin)
	for i, u := range []string{"", "root", "user1", "user2", "op"} {
		k := r.Intn(3) + 1
		l := []ua.NodeID{}
		for _, x := range r.Perm(len(a.roles))[:k] {
			l = append(l, a.roles[x])
		}
		if i == 4 {
			l = nil
		}
		a.users[u] = l
	}
	for _, role := range a.roles {
		if r.Intn(4) > 0 {
			a.defaults = append(a.defaults, ua.RolePermissionType{RoleID: role, Permissions: a01Perm(r)})
		}
	}
	a.hist.answer = func(k histCall) ([]ua.HistoryReadResult, ua.StatusCode) {
		res := make([]ua.HistoryReadResult, len(k.nodes))
		for i := range res {
			res[i] = ua.HistoryReadResult{HistoryData: ua.HistoryData{DataValues: []ua.DataValue{ua.NewDataValue(int32(77), ua.Good, time.Now(), 0, time.Now(), 0)}}}
		}
		return res, ua.Good
	}
	a.w = newWorld(c, WorldOpts{Opts: []server.Option{
		server.WithRolePermissions(a.defaults),
		server.WithHistorian(a.hist),
		server.WithServerDiagnostics(true),
		server.WithGetRolesFunc(func(id any, app, ep string) ([]ua.NodeID, error) {
			l := a.users[identityName(id)]
			if l == nil {
				return nil, ua.BadUserAccessDenied
			}
			return l, nil
		}),
	}})
	a.ns = a.w.ensureNS()
	nm := a.w.Srv.NamespaceManager()
	full := []ua.RolePermissionType{}
	for _, role := range a.roles {
		full = append(full, ua.RolePermissionType{RoleID: role, Permissions: 0x1ffff})
	}
	a.root = server.NewObjectNode(a.w.Srv, ua.NewNodeIDString(a.ns, "A01.root"), ua.NewQualifiedName(a.ns, "root"), ua.NewLocalizedText("root", ""), ua.LocalizedText{}, full,
		[]ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}, 0)
	must(nm.AddNode(a.root))
	classes := []ua.NodeClass{ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassView, ua.NodeClassObjectType, ua.NodeClassVariableType, ua.NodeClassDataType, ua.NodeClassReferenceType}
	for i := 0; i < 64; i++ {
		n := &a01Node{name: fmt.Sprintf("A01.n%d", i), by: map[string]int64{}}
		n.id = ua.NewNodeIDString(a.ns, n.name)
		if i < 8 {
			n.class = classes[i]
		} else {
			n.class = []ua.NodeClass{ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassMethod, ua.NodeClassObject, classes[r.Intn(8)]}[r.Intn(7)]
		}
		switch r.Intn(6) {
		case 0:
			n.perms = nil
		case 1:
			n.perms = []ua.RolePermissionType{}
		default:
			n.perms = a.randPerms(r)
		}
		org := []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(a.root.NodeID())}}
		bn, dn, ds := ua.NewQualifiedName(a.ns, n.name), ua.NewLocalizedText(n.name, ""), ua.NewLocalizedText("d "+n.name, "")
		sv := a.w.Srv
		switch n.class {
		case ua.NodeClassVariable:
			n.al = byte(r.Intn(128))
			if r.Intn(2) == 0 {
				n.al |= ua.AccessLevelsCurrentRead
			}
			if r.Intn(2) == 0 {
				n.al |= ua.AccessLevelsCurrentWrite
			}
			n.hist = n.al&ua.AccessLevelsHistoryRead != 0
			n.cur = atomic.AddInt64(&a.val, 1)
			n.node = server.NewVariableNode(sv, n.id, bn, dn, ds, n.perms, append(org, hasTypeDef(ua.VariableTypeIDBaseDataVariableType)), ua.NewDataValue(n.cur, ua.Good, time.Now(), 0, time.Now(), 0),
				ua.DataTypeIDInt64, ua.ValueRankScalar, nil, n.al, 0, false, a.hist)
		case ua.NodeClassMethod:
			n.exec = r.Intn(3) > 0
			m := server.NewMethodNode(sv, n.id, bn, dn, ds, n.perms, []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(a.root.NodeID())}}, n.exec)
			n := n
			m.SetCallMethodHandler(func(s *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
				n.mu.Lock()
				n.calls++
				n.by[identityName(s.UserIdentity())]++
				n.mu.Unlock()
				return ua.CallMethodResult{OutputArguments: []ua.Variant{int32(5)}}
			})
			n.node = m
		case ua.NodeClassObject:
			n.ev = []byte{0, ua.EventNotifierSubscribeToEvents, ua.EventNotifierSubscribeToEvents | ua.EventNotifierHistoryRead, ua.EventNotifierHistoryRead}[r.Intn(4)]
			n.node = server.NewObjectNode(sv, n.id, bn, dn, ds, n.perms, append(org, hasTypeDef(ua.ObjectTypeIDBaseObjectType)), n.ev)
		case ua.NodeClassView:
			n.node = server.NewViewNode(sv, n.id, bn, dn, ds, n.perms, org, true, 0)
		case ua.NodeClassObjectType:
			n.node = server.NewObjectTypeNode(sv, n.id, bn, dn, ds, n.perms, org, false)
		case ua.NodeClassVariableType:
			n.node = server.NewVariableTypeNode(sv, n.id, bn, dn, ds, n.perms, org, ua.NewDataValue(int64(1), ua.Good, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt64, ua.ValueRankScalar, nil, false)
		case ua.NodeClassDataType:
			n.node = server.NewDataTypeNode(sv, n.id, bn, dn, ds, n.perms, org, false, nil)
		case ua.NodeClassReferenceType:
			n.node = server.NewReferenceTypeNode(sv, n.id, bn, dn, ds, n.perms, org, false, false, ua.NewLocalizedText("inv", ""))
		}
		must(nm.AddNode(n.node))
		a.nodes = append(a.nodes, n)
	}
	return a
}

func (a *a01World) fail(key, user string, n *a01Node, f string, args ...any) {
	g, _ := a.granted(user, n)
	a.c.Violate(key, "%s; user %q roles %v, node %s class %v own permissions %v (nil=%v), granted %b, access level %b, executable %v",
		fmt.Sprintf(f, args...), user, a.users[user], n.name, n.class, n.perms, n.perms == nil, g, n.al, n.exec)
}

func (a *a01World) sig(op string, user string, n *a01Node, ok bool) {
	g, _ := a.granted(user, n)
	a.c.Eval(fmt.Sprintf("%s/%v/%x/%x/%v/%v/%v", op, n.class, g&0x1fff, n.al, n.exec, n.perms == nil, ok))
}

func has(g, p ua.PermissionType) bool { return g&p != 0 }

// login opens a session for the user.
func (a *a01World) login(user string) *raw.Client {
	var rc *raw.Client
	var err error
	if user == "" {
		rc, err = a.w.RawSession(raw.None, 0)
	} else {
		rc, err = a.w.RawUser(raw.None, 0, user, userDB[user])
	}
	must(err)
	return rc
}

// checkUser compares every operation of a user with the model.
func (a *a01World) checkUser(rc *raw.Client, user string, r *rand.Rand) {
	c := a.c
	read := func(id ua.NodeID, attr uint32) ua.DataValue {
		res, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: attr}}, TimestampsToReturn: ua.TimestampsToReturnBoth})
		must(err)
		return res.(*ua.ReadResponse).Results[0]
	}
	// Browse of the root: exactly the nodes the user may browse, by either reference type.
	bres, err := rc.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: a.root.NodeID(), BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63}}})
	must(err)
	b := bres.(*ua.BrowseResponse).Results[0]
	anyRole := len(a.users[user]) > 0
	seen := map[string]bool{}
	if anyRole != (b.StatusCode == ua.Good) {
		c.Violate("browse-root", "user %q: browse of a node all roles may browse: %v", user, b.StatusCode)
	}
	for _, ref := range b.References {
		seen[fmt.Sprint(ua.ToNodeID(ref.NodeID, nil))] = true
	}
	for _, n := range a.nodes {
		g, own := a.granted(user, n)
		mayBrowse := has(g, ua.PermissionTypeBrowse)
		if got := seen[fmt.Sprint(n.id)]; got != (mayBrowse && anyRole) {
			a.fail("browse-filter", user, n, "listed by browse of its parent: %v", got)
		}
		a.sig("browse", user, n, mayBrowse)
		// browse the node itself
		res, err := rc.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: n.id, BrowseDirection: ua.BrowseDirectionBoth, ResultMask: 63}}})
		must(err)
		br := res.(*ua.BrowseResponse).Results[0]
		if mayBrowse != (br.StatusCode == ua.Good) || (!mayBrowse && len(br.References) > 0) {
			a.fail("browse-node", user, n, "browse answered %v with %d references", br.StatusCode, len(br.References))
		}
		// translate
		res, err = rc.Do(&ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: a.root.NodeID(), RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, TargetName: ua.NewQualifiedName(a.ns, n.name)}}}}}})
		must(err)
		tr := res.(*ua.TranslateBrowsePathsToNodeIDsResponse).Results[0]
		if (mayBrowse && anyRole) != (tr.StatusCode == ua.Good && len(tr.Targets) == 1) {
			a.fail("translate", user, n, "translation answered %v with %d targets", tr.StatusCode, len(tr.Targets))
		}
		// every attribute
		for attr := uint32(1); attr <= 27; attr++ {
			dv := read(n.id, attr)
			good := dv.StatusCode == ua.Good
			if !mayBrowse {
				if !dv.StatusCode.IsBad() || dv.Value != nil {
					a.fail("read-without-browse", user, n, "attribute %d read as %v %v", attr, dv.StatusCode, dv.Value)
				}
				continue
			}
			switch attr {
			case ua.AttributeIDNodeID, ua.AttributeIDNodeClass, ua.AttributeIDBrowseName, ua.AttributeIDDisplayName, ua.AttributeIDDescription:
				if !good {
					a.fail("attribute-denied", user, n, "attribute %d: %v", attr, dv.StatusCode)
				}
			case ua.AttributeIDValue:
				if n.class != ua.NodeClassVariable {
					break
				}
				ok := has(g, ua.PermissionTypeRead) && n.al&ua.AccessLevelsCurrentRead != 0
				if ok != good || (ok && !reflect.DeepEqual(dv.Value, ua.Variant(n.cur))) || (!ok && dv.Value != nil) {
					a.fail("read-value", user, n, "value read as %v %v, value is %d", dv.StatusCode, dv.Value, n.cur)
				}
				a.sig("read", user, n, ok)
			case ua.AttributeIDUserAccessLevel:
				if n.class != ua.NodeClassVariable {
					break
				}
				v, _ := dv.Value.(byte)
				m := n.al
				if !has(g, ua.PermissionTypeRead) {
					m &^= ua.AccessLevelsCurrentRead
				}
				if !has(g, ua.PermissionTypeWrite) {
					m &^= ua.AccessLevelsCurrentWrite
				}
				if !has(g, ua.PermissionTypeReadHistory) {
					m &^= ua.AccessLevelsHistoryRead
				}
				const mask = ua.AccessLevelsCurrentRead | ua.AccessLevelsCurrentWrite | ua.AccessLevelsHistoryRead
				if !good || v&mask != m&mask || v&^n.al != 0 {
					a.fail("user-access-level", user, n, "UserAccessLevel read as %v %b", dv.StatusCode, v)
				}
				a.sig("ual", user, n, true)
			case ua.AttributeIDAccessLevel:
				if n.class == ua.NodeClassVariable && (!good || dv.Value != ua.Variant(n.al)) {
					a.fail("access-level", user, n, "AccessLevel read as %v %v", dv.StatusCode, dv.Value)
				}
			case ua.AttributeIDExecutable, ua.AttributeIDUserExecutable:
				if n.class != ua.NodeClassMethod {
					break
				}
				want := n.exec && (attr == ua.AttributeIDExecutable || has(g, ua.PermissionTypeCall))
				if !good || dv.Value != ua.Variant(want) {
					a.fail("user-executable", user, n, "attribute %d read as %v %v", attr, dv.StatusCode, dv.Value)
				}
				a.sig("uex", user, n, want)
			case ua.AttributeIDRolePermissions:
				ok := has(g, ua.PermissionTypeReadRolePermissions)
				if ok != good || (!ok && dv.Value != nil) {
					a.fail("role-permissions", user, n, "RolePermissions read as %v %v", dv.StatusCode, dv.Value)
				}
				if ok && n.perms != nil {
					got := map[string]int{}
					l, _ := dv.Value.([]ua.ExtensionObject)
					for _, x := range l {
						if rp, ok := x.(ua.RolePermissionType); ok {
							got[fmt.Sprintf("%v/%d", rp.RoleID, rp.Permissions)]++
						}
					}
					want := map[string]int{}
					for _, rp := range n.perms {
						want[fmt.Sprintf("%v/%d", rp.RoleID, rp.Permissions)]++
					}
					if !reflect.DeepEqual(got, want) {
						a.fail("role-permissions", user, n, "RolePermissions read as %v", got)
					}
				}
				a.sig("rp", user, n, ok)
			case ua.AttributeIDUserRolePermissions:
				got := map[string]int{}
				l, _ := dv.Value.([]ua.ExtensionObject)
				for _, x := range l {
					if rp, ok := x.(ua.RolePermissionType); ok {
						got[fmt.Sprintf("%v/%d", rp.RoleID, rp.Permissions)]++
					}
				}
				if !good || !reflect.DeepEqual(got, own) {
					a.fail("user-role-permissions", user, n, "UserRolePermissions read as %v %v, expected %v", dv.StatusCode, got, own)
				}
				a.sig("urp", user, n, true)
			}
		}
		// writes
		write := func(attr uint32, v ua.Variant) ua.StatusCode {
			res, err := rc.Do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: n.id, AttributeID: attr, Value: ua.NewDataValue(v, 0, time.Time{}, 0, time.Time{}, 0)}}})
			must(err)
			return res.(*ua.WriteResponse).Results[0]
		}
		if v, ok := n.node.(*server.VariableNode); ok {
			x := atomic.AddInt64(&a.val, 1)
			ok := mayBrowse && has(g, ua.PermissionTypeWrite) && n.al&ua.AccessLevelsCurrentWrite != 0
			st := write(ua.AttributeIDValue, x)
			if ok {
				n.cur = x
			}
			if ok != (st == ua.Good) {
				a.fail("write-value", user, n, "write answered %v", st)
			}
			if now := v.Value().Value; now != ua.Variant(n.cur) {
				a.fail("write-effect", user, n, "value after write answered %v is %v, expected %d", st, now, n.cur)
				n.cur, _ = now.(int64)
			}
			a.sig("write", user, n, ok)
			h := v.Historizing()
			ok = mayBrowse && has(g, ua.PermissionTypeWriteHistorizing)
			st = write(ua.AttributeIDHistorizing, !h)
			if ok != (st == ua.Good) || (v.Historizing() != h) != ok {
				a.fail("write-historizing", user, n, "write of Historizing answered %v, changed %v", st, v.Historizing() != h)
			}
			a.sig("historizing", user, n, ok)
		}
		if st := write(ua.AttributeIDDisplayName, ua.NewLocalizedText("changed", "")); !st.IsBad() || n.node.DisplayName().Text != n.name {
			a.fail("write-display-name", user, n, "write answered %v, DisplayName %v", st, n.node.DisplayName())
		}
		for _, attr := range []uint32{ua.AttributeIDAccessLevel, ua.AttributeIDUserAccessLevel, ua.AttributeIDRolePermissions, ua.AttributeIDExecutable} {
			if mayBrowse {
				break
			}
			if st := write(attr, byte(255)); !st.IsBad() {
				a.fail("write-without-browse", user, n, "write of attribute %d answered %v", attr, st)
			}
		}
		// call
		if n.class == ua.NodeClassMethod {
			n.mu.Lock()
			before := n.calls
			n.mu.Unlock()
			res, err := rc.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: a.root.NodeID(), MethodID: n.id}}})
			must(err)
			st := res.(*ua.CallResponse).Results[0].StatusCode
			n.mu.Lock()
			d := n.calls - before
			n.mu.Unlock()
			ok := anyRole && mayBrowse && n.exec && has(g, ua.PermissionTypeCall)
			if ok != (st == ua.Good) || ok != (d == 1) || d > 1 {
				a.fail("call", user, n, "call answered %v, handler ran %d times", st, d)
			}
			a.sig("call", user, n, ok)
		}
		// history
		for _, det := range []any{ua.ReadRawModifiedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now()}, ua.ReadProcessedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now(), ProcessingInterval: 1000, AggregateType: []ua.NodeID{ua.ObjectIDAggregateFunctionAverage}},
			ua.ReadAtTimeDetails{ReqTimes: []time.Time{time.Now()}}, ua.ReadEventDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now()}} {
			before := a.hist.count()
			res, err := rc.Do(&ua.HistoryReadRequest{HistoryReadDetails: det, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.HistoryReadValueID{{NodeID: n.id}}})
			if err != nil {
				if _, ok := isSvc(err); !ok {
					must(err)
				}
				continue
			}
			hr := res.(*ua.HistoryReadResponse).Results[0]
			reached := a.hist.count() > before
			_, isEv := det.(ua.ReadEventDetails)
			allowed := mayBrowse && has(g, ua.PermissionTypeReadHistory)
			if n.class == ua.NodeClassVariable {
				allowed = allowed && n.al&ua.AccessLevelsHistoryRead != 0
			} else if isEv && n.class == ua.NodeClassObject {
				allowed = allowed && n.ev&ua.EventNotifierHistoryRead != 0
			}
			if !allowed && n.class != ua.NodeClassObject && reached {
				a.fail("history-denied", user, n, "historian was asked for %T, answered %v", det, hr.StatusCode)
			}
			if n.class == ua.NodeClassObject && reached && !(mayBrowse && has(g, ua.PermissionTypeReadHistory)) {
				a.fail("history-denied", user, n, "historian was asked for %T, answered %v", det, hr.StatusCode)
			}
			if !reached && !hr.StatusCode.IsBad() {
				a.fail("history-result", user, n, "%T answered %v without asking the historian", det, hr.StatusCode)
			}
			if allowed && n.class == ua.NodeClassVariable && !isEv && (!reached || hr.StatusCode.IsBad()) {
				a.fail("history-refused", user, n, "%T answered %v, historian asked %v", det, hr.StatusCode, reached)
			}
			a.sig(fmt.Sprintf("%T", det), user, n, allowed)
		}
	}
}

// checkMonitored: monitored items deliver good values only where reading is granted.
func (a *a01World) checkMonitored(rc *raw.Client, user string) {
	c := a.c
	res, err := rc.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true})
	must(err)
	sub := res.(*ua.CreateSubscriptionResponse).SubscriptionID
	req := &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth}
	for i, n := range a.nodes {
		req.ItemsToCreate = append(req.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: n.id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), SamplingInterval: 100, QueueSize: 5}})
	}
	for i, n := range a.nodes {
		req.ItemsToCreate = append(req.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: n.id, AttributeID: ua.AttributeIDDisplayName}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(10000 + i), SamplingInterval: 100, QueueSize: 5}})
	}
	nd := len(req.ItemsToCreate)
	for i, n := range a.nodes {
		if n.class != ua.NodeClassObject {
			continue
		}
		req.ItemsToCreate = append(req.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: n.id, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(1000 + i), QueueSize: 10,
			Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("EventId"), AttributeID: ua.AttributeIDValue}}}}})
	}
	res, err = rc.Do(req)
	must(err)
	results := res.(*ua.CreateMonitoredItemsResponse).Results
	want := map[uint32]bool{}
	for i, it := range req.ItemsToCreate {
		h := it.RequestedParameters.ClientHandle
		n := a.nodes[h%1000]
		g, _ := a.granted(user, n)
		st := results[i].StatusCode
		if i >= nd {
			ok := has(g, ua.PermissionTypeReceiveEvents) && n.ev&ua.EventNotifierSubscribeToEvents != 0
			if (!ok && !st.IsBad()) || (ok && has(g, ua.PermissionTypeBrowse) && st != ua.Good) {
				a.fail("event-item", user, n, "creation of an event item answered %v", st)
			}
			a.sig("evitem", user, n, ok)
			continue
		}
		if h >= 10000 {
			ok := has(g, ua.PermissionTypeBrowse)
			if ok && st != ua.Good {
				a.fail("attribute-item", user, n, "creation of an item for DisplayName answered %v", st)
			}
			want[h] = ok
			continue
		}
		ok := n.class == ua.NodeClassVariable && has(g, ua.PermissionTypeBrowse) && has(g, ua.PermissionTypeRead) && n.al&ua.AccessLevelsCurrentRead != 0
		if ok && st != ua.Good {
			a.fail("value-item", user, n, "creation of a value item answered %v", st)
		}
		want[h] = ok
	}
	got := map[uint32]bool{}
	deadline := time.Now().Add(20 * time.Second)
	settle := time.Time{}
	need := 0
	for _, x := range want {
		if x {
			need++
		}
	}
	good := 0
	for time.Now().Before(deadline) {
		if good >= need && settle.IsZero() {
			settle = time.Now().Add(300 * time.Millisecond)
		}
		if !settle.IsZero() && time.Now().After(settle) {
			break
		}
		// the DisplayName write of a helper keeps publishing going
		for _, n := range a.nodes {
			if v, ok := n.node.(*server.VariableNode); ok && n.al&ua.AccessLevelsCurrentRead != 0 {
				n.cur = atomic.AddInt64(&a.val, 1)
				v.SetValue(ua.NewDataValue(n.cur, ua.Good, time.Now(), 0, time.Now(), 0))
			}
		}
		h := &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 400}}
		res, err := rc.Do(h)
		if err != nil {
			if _, ok := isSvc(err); ok {
				continue
			}
			must(err)
		}
		for _, nd := range res.(*ua.PublishResponse).NotificationMessage.NotificationData {
			d, ok := nd.(ua.DataChangeNotification)
			if !ok {
				continue
			}
			for _, m := range d.MonitoredItems {
				n := a.nodes[m.ClientHandle%1000]
				if m.Value.StatusCode.IsBad() && m.Value.Value == nil {
					continue
				}
				if !want[m.ClientHandle] {
					a.fail("monitored-denied", user, n, "monitored item delivered %v %v", m.Value.StatusCode, m.Value.Value)
				}
				if !got[m.ClientHandle] {
					got[m.ClientHandle] = true
					good++
				}
			}
		}
	}
	if settle.IsZero() {
		for h, x := range want {
			if x && !got[h] {
				a.fail("monitored-missing", user, a.nodes[h%1000], "no good value delivered within 20 s for item %d", h)
				break
			}
		}
	}
	for h, x := range want {
		a.sig(fmt.Sprintf("monitor%v", h >= 10000), user, a.nodes[h%1000], x)
	}
	c.Count("monitored_good", good)
	_, err = rc.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}})
	must(err)
}

// concurrent: users in parallel; writes of unique values.
func (a *a01World) concurrent(r *rand.Rand, d time.Duration) {
	var wg sync.WaitGroup
	owner := sync.Map{} // value -> user+node that was denied
	stop := time.Now().Add(d)
	for u := range a.users {
		for k := 0; k < 2; k++ {
			u := u
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				rc := a.login(u)
				defer rc.Close()
				for time.Now().Before(stop) {
					n := a.nodes[rr.Intn(len(a.nodes))]
					g, _ := a.granted(u, n)
					b := has(g, ua.PermissionTypeBrowse)
					switch {
					case n.class == ua.NodeClassVariable && rr.Intn(2) == 0:
						ok := b && has(g, ua.PermissionTypeWrite) && n.al&ua.AccessLevelsCurrentWrite != 0
						x := atomic.AddInt64(&a.val, 1)
						if !ok {
							owner.Store(x, u+" "+n.name)
						}
						res, err := rc.Do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: n.id, AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(x, 0, time.Time{}, 0, time.Time{}, 0)}}})
						must(err)
						if st := res.(*ua.WriteResponse).Results[0]; ok != (st == ua.Good) {
							a.fail("concurrent-write", u, n, "write answered %v", st)
						}
						a.sig("cwrite", u, n, ok)
					case n.class == ua.NodeClassVariable:
						ok := b && has(g, ua.PermissionTypeRead) && n.al&ua.AccessLevelsCurrentRead != 0
						res, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: n.id, AttributeID: ua.AttributeIDValue}}, TimestampsToReturn: ua.TimestampsToReturnBoth})
						must(err)
						dv := res.(*ua.ReadResponse).Results[0]
						if ok != (dv.StatusCode == ua.Good) || (!ok && dv.Value != nil) {
							a.fail("concurrent-read", u, n, "read answered %v %v", dv.StatusCode, dv.Value)
						}
						if who, bad := owner.Load(dv.Value); bad {
							a.fail("denied-write-visible", u, n, "value %v written by a denied request of %v was read", dv.Value, who)
						}
						a.sig("cread", u, n, ok)
					case n.class == ua.NodeClassMethod:
						ok := len(a.users[u]) > 0 && b && n.exec && has(g, ua.PermissionTypeCall)
						res, err := rc.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: a.root.NodeID(), MethodID: n.id}}})
						must(err)
						if st := res.(*ua.CallResponse).Results[0].StatusCode; ok != (st == ua.Good) {
							a.fail("concurrent-call", u, n, "call answered %v", st)
						}
						a.sig("ccall", u, n, ok)
					default:
						res, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: n.id, AttributeID: ua.AttributeIDDisplayName}}, TimestampsToReturn: ua.TimestampsToReturnBoth})
						must(err)
						if dv := res.(*ua.ReadResponse).Results[0]; b != (dv.StatusCode == ua.Good) {
							a.fail("concurrent-attribute", u, n, "read answered %v", dv.StatusCode)
						}
						a.sig("cattr", u, n, b)
					}
				}
			}()
		}
	}
	wg.Wait()
	for _, n := range a.nodes {
		if v, ok := n.node.(*server.VariableNode); ok {
			n.cur, _ = v.Value().Value.(int64)
			if who, bad := owner.Load(v.Value().Value); bad {
				a.fail("denied-write-stored", "", n, "value %v written by a denied request of %v is stored", n.cur, who)
			}
		}
		n.mu.Lock()
		for u, k := range n.by {
			g, _ := a.granted(u, n)
			if !(n.exec && has(g, ua.PermissionTypeCall) && has(g, ua.PermissionTypeBrowse)) {
				a.fail("call-log", u, n, "handler ran %d times for a user without rights", k)
			}
		}
		n.mu.Unlock()
	}
}

// secDiag: session security diagnostics are for authenticated users over encrypted channels only.
func (a *a01World) secDiag() {
	c := a.c
	nm := a.w.Srv.NamespaceManager()
	node, ok := nm.FindNode(ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionSecurityDiagnosticsArray)
	if !ok {
		return
	}
	for _, user := range []string{"", "root", "user1", "user2"} {
		for _, m := range []struct {
			p    *raw.Policy
			mode int
		}{{raw.None, raw.ModeNone}, {raw.Policies[len(raw.Policies)-1], raw.ModeSign}, {raw.Policies[len(raw.Policies)-1], raw.ModeSignAndEncrypt}} {
			var rc *raw.Client
			var err error
			if user == "" {
				rc, err = a.w.RawSession(m.p, m.mode)
			} else {
				rc, err = a.w.RawUser(m.p, m.mode, user, userDB[user])
			}
			must(err)
			auth := false
			for _, x := range a.users[user] {
				auth = auth || x == ua.ObjectIDWellKnownRoleAuthenticatedUser
			}
			for _, ref := range node.References() {
				if ref.IsInverse || ref.ReferenceTypeID != ua.ReferenceTypeIDHasComponent {
					continue
				}
				id := ua.ToNodeID(ref.TargetID, nil)
				ids := []ua.NodeID{id}
				if sub, ok := nm.FindNode(id); ok {
					for _, x := range sub.References() {
						if !x.IsInverse && x.ReferenceTypeID == ua.ReferenceTypeIDHasComponent {
							ids = append(ids, ua.ToNodeID(x.TargetID, nil))
						}
					}
				}
				for _, id := range ids {
					res, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: ua.AttributeIDValue}}, TimestampsToReturn: ua.TimestampsToReturnBoth})
					must(err)
					dv := res.(*ua.ReadResponse).Results[0]
					if dv.Value != nil && (!auth || m.mode != raw.ModeSignAndEncrypt) {
						c.Violate("security-diagnostics", "user %q (authenticated role %v) on %s mode %d read security diagnostics of a session: %v", user, auth, m.p.URI, m.mode, dv.Value)
					}
					c.Eval(fmt.Sprintf("secdiag/%v/%d/%v", auth, m.mode, dv.Value != nil))
				}
			}
			rc.Close()
		}
	}
}

// a01Rules compares the rules based provider with the documented meaning of its rules.
func a01Rules(c *Ctx, r *rand.Rand) {
	apps := []string{"urn:a", "urn:b", "urn:c", ""}
	eps := []string{"opc.tcp://a", "opc.tcp://b", ""}
	cert := []byte("certificate bytes")
	thumb := fmt.Sprintf("%x", sha1.Sum(cert))
	ids := []any{ua.AnonymousIdentity{}, ua.UserNameIdentity{UserName: "u1"}, ua.UserNameIdentity{UserName: "u2", Password: "x"}, ua.X509Identity{Certificate: ua.ByteString(cert)}, ua.X509Identity{Certificate: "other"}, ua.IssuedIdentity{}}
	match := func(id any, t ua.IdentityMappingRuleType) bool {
		switch x := id.(type) {
		case ua.AnonymousIdentity:
			return t.CriteriaType == ua.IdentityCriteriaTypeAnonymous
		case ua.UserNameIdentity:
			return t.CriteriaType == ua.IdentityCriteriaTypeAuthenticatedUser || t.CriteriaType == ua.IdentityCriteriaTypeUserName && t.Criteria == x.UserName
		case ua.X509Identity:
			return t.CriteriaType == ua.IdentityCriteriaTypeAuthenticatedUser || t.CriteriaType == ua.IdentityCriteriaTypeThumbprint && t.Criteria == fmt.Sprintf("%x", sha1.Sum([]byte(x.Certificate)))
		case ua.IssuedIdentity:
			return t.CriteriaType == ua.IdentityCriteriaTypeAuthenticatedUser
		}
		return false
	}
	for it := 0; it < c.N(1000, 60000); it++ {
		var rules []server.IdentityMappingRule
		for k := r.Intn(5); k >= 0; k-- {
			rule := server.IdentityMappingRule{NodeID: ua.NewNodeIDString(1, fmt.Sprintf("r%d", r.Intn(5))), ApplicationsExclude: r.Intn(2) == 0, EndpointsExclude: r.Intn(2) == 0}
			for i := r.Intn(3); i > 0; i-- {
				rule.Applications = append(rule.Applications, apps[r.Intn(len(apps))])
			}
			for i := r.Intn(3); i > 0; i-- {
				rule.Endpoints = append(rule.Endpoints, struct {
					EndpointUrl         string
					SecurityMode        string
					SecurityPolicyURI   string
					TransportProfileUri string
				}{EndpointUrl: eps[r.Intn(len(eps))]})
			}
			for i := r.Intn(4); i > 0; i-- {
				ct := []ua.IdentityCriteriaType{ua.IdentityCriteriaTypeAnonymous, ua.IdentityCriteriaTypeAuthenticatedUser, ua.IdentityCriteriaTypeUserName, ua.IdentityCriteriaTypeThumbprint}[r.Intn(4)]
				rule.Identities = append(rule.Identities, ua.IdentityMappingRuleType{CriteriaType: ct, Criteria: []string{"u1", "u2", thumb, ""}[r.Intn(4)]})
			}
			rules = append(rules, rule)
		}
		p := server.NewRulesBasedRolesProvider(rules)
		for _, id := range ids {
			app, ep := apps[r.Intn(len(apps))], eps[r.Intn(len(eps))]
			want := map[string]bool{}
			for _, rule := range rules {
				in := false
				for _, x := range rule.Applications {
					in = in || x == app
				}
				ein := false
				for _, x := range rule.Endpoints {
					ein = ein || x.EndpointUrl == ep
				}
				if in == rule.ApplicationsExclude || ein == rule.EndpointsExclude {
					continue
				}
				for _, t := range rule.Identities {
					if match(id, t) {
						want[fmt.Sprint(rule.NodeID)] = true
					}
				}
			}
			got, err := p.GetRoles(id, app, ep)
			g := map[string]bool{}
			for _, x := range got {
				g[fmt.Sprint(x)] = true
			}
			if (err != nil) != (len(want) == 0) || (err == nil && !reflect.DeepEqual(g, want)) {
				c.Violate("rules", "rules %+v identity %#v application %q endpoint %q: roles %v (%v), expected %v", rules, id, app, ep, g, err, want)
			}
			c.Eval(fmt.Sprintf("rules/%T/%d/%d", id, len(rules), len(want)))
		}
	}
}

// a01Live observes whether the connection information reaches the roles provider of a running server.
func a01Live(c *Ctx) {
	rules := []server.IdentityMappingRule{{NodeID: ua.ObjectIDWellKnownRoleAnonymous, Identities: []ua.IdentityMappingRuleType{{CriteriaType: ua.IdentityCriteriaTypeAnonymous}}, ApplicationsExclude: true, Applications: []string{clientURI}, EndpointsExclude: true}}
	w2 := newWorld(c, WorldOpts{Opts: []server.Option{server.WithRolesProvider(server.NewRulesBasedRolesProvider(rules))}})
	defer w2.Srv.Close()
	rc, err := w2.Raw(raw.None, 0)
	must(err)
	defer rc.Close()
	if _, err := rc.CreateSession("raw", 60000); err != nil {
		panic(err)
	}
	if err := rc.ActivateAnonymous(); err != nil {
		return
	}
	res, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusCurrentTime, AttributeID: ua.AttributeIDValue}}})
	must(err)
	st := res.(*ua.ReadResponse).Results[0].StatusCode
	c.Eval(fmt.Sprintf("live/%v", st))
	if st == ua.Good {
		c.Violate("roles-application-ignored", "a rule excludes application %s from the only role with permissions, yet its session reads a value", clientURI)
	}
}

func runA01(c *Ctx) {
	r := c.Rng("a01")
	a01Rules(c, r)
	a01Live(c)
	for it := 0; it < c.N(3, 40) && !c.Violated(); it++ {
		a := newA01World(c, r)
		for _, u := range []string{"", "root", "user1", "user2", "op"} {
			rc := a.login(u)
			a.checkUser(rc, u, r)
			if it == 0 || c.Thorough() {
				a.checkMonitored(rc, u)
			}
			// identity change within the session
			v := []string{"root", "user1", "user2", "op", ""}[r.Intn(5)]
			var err error
			if v == "" {
				err = rc.ActivateAnonymous()
			} else {
				tok, e := rc.UserNameToken(v, userDB[v], a.w.ServerCert, nil)
				must(e)
				_, err = rc.Activate(tok, rc.ClientSig(), ua.SignatureData{})
			}
			must(err)
			a.checkUser(rc, v, r)
			rc.Close()
		}
		a.concurrent(r, time.Duration(c.N(2, 8))*time.Second)
		if it == 0 || c.Thorough() {
			a.secDiag()
		}
		a.w.Srv.Close()
	}
}
