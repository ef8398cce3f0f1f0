package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("X01", &check{run: runX01, minEvals: 500, minDistinct: 200,
		rule: "calls with unique nonces matched one-to-one against the invocation log of the handlers; distinct = distinct (method, user, outcome, argument shape)"})
}

type x01Inv struct {
	session string
	user    string
	method  string
	object  ua.NodeID
	args    string
	result  ua.CallMethodResult
}

type x01Method struct {
	name  string
	id    ua.NodeID
	node  *server.MethodNode
	exec  bool
	hand  bool
	perms []ua.RolePermissionType
}

// wireNorm returns the variants as they are after transport.
func wireNorm(vs []ua.Variant) []ua.Variant {
	b := raw.MustEncode(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{InputArguments: vs}}})
	x, err := raw.Decode(b)
	must(err)
	return x.(*ua.CallRequest).MethodsToCall[0].InputArguments
}

func identityName(id any) string {
	switch x := id.(type) {
	case ua.UserNameIdentity:
		return x.UserName
	case ua.AnonymousIdentity:
		return ""
	}
	return fmt.Sprintf("%T", id)
}

func runX01(c *Ctx) {
	w := graphWorld(c)
	defer w.Srv.Close()
	r := c.Rng("x01")
	ns := w.ensureNS()
	nm := w.Srv.NamespaceManager()
	for _, st := range registeredTypes() {
		if st.Typ.Kind() == reflect.Struct && st.Typ.Size() < 120 {
			embeddable = append(embeddable, st)
		}
	}
	var mu sync.Mutex
	log := map[int64][]x01Inv{}
	var invID int64
	obj := server.NewObjectNode(w.Srv, ua.NewNodeIDString(ns, "X01.obj"), ua.NewQualifiedName(ns, "obj"), ua.NewLocalizedText("obj", ""), ua.LocalizedText{}, nil,
		[]ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}, 0)
	hidden := server.NewObjectNode(w.Srv, ua.NewNodeIDString(ns, "X01.hidden"), ua.NewQualifiedName(ns, "hidden"), ua.NewLocalizedText("hidden", ""), ua.LocalizedText{},
		[]ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleSupervisor, Permissions: allPermissions}},
		[]ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}, 0)
	must(nm.AddNodes(obj, hidden))
	v := w.addVar(VarSpec{Name: "X01.var", Value: int32(1), DataType: ua.DataTypeIDInt32})
	callPerm := func(users ...string) []ua.RolePermissionType {
		out := []ua.RolePermissionType{}
		for u, roles := range gUsers {
			p := ua.PermissionTypeBrowse | ua.PermissionTypeRead | ua.PermissionTypeWrite
			for _, x := range users {
				if x == u {
					p |= ua.PermissionTypeCall
				}
			}
			out = append(out, ua.RolePermissionType{RoleID: roles[len(roles)-1], Permissions: p})
		}
		return out
	}
	methods := []*x01Method{
		{name: "a", exec: true, hand: true}, {name: "b", exec: true, hand: true}, {name: "c", exec: true, hand: true},
		{name: "noexec", hand: true}, {name: "nohandler", exec: true},
		{name: "opsonly", exec: true, hand: true, perms: callPerm("user1", "root")},
		{name: "anon", exec: true, hand: true, perms: callPerm("")},
		{name: "nobrowse", exec: true, hand: true, perms: []ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: ua.PermissionTypeCall}, {RoleID: ua.ObjectIDWellKnownRoleSupervisor, Permissions: allPermissions}}},
		{name: "none", exec: true, hand: true, perms: []ua.RolePermissionType{}},
	}
	for _, m := range methods {
		m.id = ua.NewNodeIDString(ns, "X01."+m.name)
		m.node = server.NewMethodNode(w.Srv, m.id, ua.NewQualifiedName(ns, m.name), ua.NewLocalizedText(m.name, ""), ua.LocalizedText{}, m.perms,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(obj.NodeID())}, {ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(hidden.NodeID())}}, m.exec)
		must(nm.AddNode(m.node))
		if !m.hand {
			continue
		}
		m := m
		hr := rand.New(rand.NewSource(r.Int63()))
		var hmu sync.Mutex
		m.node.SetCallMethodHandler(func(s *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
			id := atomic.AddInt64(&invID, 1)
			nonce, _ := q.InputArguments[0].(int64)
			hmu.Lock()
			st := []ua.StatusCode{ua.Good, ua.Good, ua.Good, ua.BadInvalidArgument, ua.UncertainSubNormal, ua.BadOutOfRange}[hr.Intn(6)]
			sleep := hr.Intn(4)
			hmu.Unlock()
			if sleep == 0 {
				time.Sleep(time.Duration(50+id%200) * time.Microsecond)
			}
			res := ua.CallMethodResult{StatusCode: st}
			if st.IsBad() {
				res.InputArgumentResults = []ua.StatusCode{ua.BadTypeMismatch, ua.Good}
			} else {
				res.OutputArguments = append([]ua.Variant{id, m.name}, q.InputArguments...)
			}
			inv := x01Inv{user: identityName(s.UserIdentity()), session: fmt.Sprint(s.SessionId()), method: m.name, object: q.ObjectID, args: dumpAny(q.InputArguments), result: res}
			mu.Lock()
			log[nonce] = append(log[nonce], inv)
			mu.Unlock()
			return res
		})
	}
	// equal calls: methods without arguments of their own, called several times in one request
	type equalInv struct{ method, session, user, args string }
	equalLog := map[int64]equalInv{}
	equalGot := map[int64]int{}
	var equalMade int64
	var equal []ua.NodeID
	for _, name := range []string{"equal1", "equal2"} {
		name := name
		n := server.NewMethodNode(w.Srv, ua.NewNodeIDString(ns, "X01."+name), ua.NewQualifiedName(ns, name), ua.NewLocalizedText(name, ""), ua.LocalizedText{}, nil,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(obj.NodeID())}}, true)
		n.SetCallMethodHandler(func(s *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
			id := atomic.AddInt64(&invID, 1)
			mu.Lock()
			equalLog[id] = equalInv{name, fmt.Sprint(s.SessionId()), identityName(s.UserIdentity()), dumpAny(q.InputArguments)}
			mu.Unlock()
			return ua.CallMethodResult{OutputArguments: []ua.Variant{id}}
		})
		must(nm.AddNode(n))
		equal = append(equal, n.NodeID())
	}
	type caller struct {
		user, session string
		call          func(*ua.CallRequest) (*ua.CallResponse, error)
	}
	var callers []caller
	ss := graphSessions(c, w)
	if ss == nil {
		return
	}
	for _, s := range append(graphSessions(c, w), ss...) {
		s := s
		callers = append(callers, caller{s.user, fmt.Sprint(s.s.SessionID), func(q *ua.CallRequest) (*ua.CallResponse, error) {
			res, err := s.s.Do(q)
			if err != nil {
				return nil, err
			}
			return res.(*ua.CallResponse), nil
		}})
	}
	cl, err := w.Dial(raw.Basic256Sha256, raw.ModeSignAndEncrypt, client.WithUserNameIdentity("user1", userDB["user1"]))
	if err != nil {
		c.Inconclusive("client: %v", err)
		return
	}
	defer cl.Abort(bg())
	for i := 0; i < 3; i++ { // one client used by several goroutines
		callers = append(callers, caller{"user1", fmt.Sprint(cl.SessionID()), func(q *ua.CallRequest) (*ua.CallResponse, error) {
			q2 := *q
			q2.TimeoutHint = 60000
			return cl.Call(bg(), &q2)
		}})
	}
	var nonce int64
	var wg sync.WaitGroup
	for _, cr := range callers {
		wg.Add(1)
		go func(cr caller, seed int64) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			g := &gen{r: r, interop: true, maxDep: 2, maxLen: 4}
			for k := 0; k < c.N(150, 2000) && !c.Violated(); k++ {
				type want struct {
					nonce  int64
					status ua.StatusCode // if refused
					refuse bool
					m      *x01Method
					args   []ua.Variant
				}
				req := &ua.CallRequest{}
				if r.Intn(8) == 0 && rolesHave(cr.user, gDefaultPerms, ua.PermissionTypeBrowse) && rolesHave(cr.user, gDefaultPerms, ua.PermissionTypeCall) {
					args := wireNorm([][]ua.Variant{nil, {}, {int32(7)}, {"x", true}}[r.Intn(4)])
					var names []string
					for i := 2 + r.Intn(9); i > 0; i-- {
						e := r.Intn(2)
						if r.Intn(3) > 0 {
							e = 0
						}
						names = append(names, []string{"equal1", "equal2"}[e])
						req.MethodsToCall = append(req.MethodsToCall, ua.CallMethodRequest{ObjectID: obj.NodeID(), MethodID: equal[e], InputArguments: args})
					}
					atomic.AddInt64(&equalMade, int64(len(names)))
					res, err := cr.call(req)
					if err != nil || len(res.Results) != len(names) {
						c.Violate("service", "call of %d methods: %v", len(names), err)
						return
					}
					mu.Lock()
					for i, got := range res.Results {
						c.Eval(fmt.Sprintf("%s/%s/%d of %d/%d", names[i], cr.user, i, len(names), len(args)))
						c.Count("equal_calls", 1)
						if got.StatusCode != ua.Good || len(got.OutputArguments) != 1 {
							c.Violate("status", "user %q: call %d of %d of %s gives %#x %v", cr.user, i, len(names), names[i], uint32(got.StatusCode), got.OutputArguments)
							continue
						}
						id, _ := got.OutputArguments[0].(int64)
						equalGot[id]++
						if inv, ok := equalLog[id]; !ok || inv != (equalInv{names[i], cr.session, cr.user, dumpAny(args)}) {
							c.Violate("result", "call %d of %v of user %q session %s has the result of the invocation %v", i, names, cr.user, cr.session, inv)
						}
						if equalGot[id] > 1 {
							c.Violate("once", "call %d of %v by user %q shares the invocation of another call", i, names, cr.user)
						}
					}
					mu.Unlock()
					continue
				}
				var ws []want
				for i := 1 + r.Intn(7); i > 0; i-- {
					m := methods[r.Intn(len(methods))]
					if r.Intn(2) == 0 {
						m = methods[r.Intn(3)]
					}
					n := atomic.AddInt64(&nonce, 1)
					wt := want{nonce: n, m: m, args: []ua.Variant{n}}
					for j := r.Intn(4); j > 0; j-- {
						wt.args = append(wt.args, g.variant(2))
					}
					wt.args = wireNorm(wt.args)
					q := ua.CallMethodRequest{ObjectID: obj.NodeID(), MethodID: m.id, InputArguments: wt.args}
					perms := m.perms
					if perms == nil {
						perms = gDefaultPerms
					}
					deny := func(st ua.StatusCode) { wt.refuse, wt.status = true, st }
					switch {
					case !rolesHave(cr.user, perms, ua.PermissionTypeBrowse):
						deny(ua.BadMethodInvalid)
					case !m.exec:
						deny(0)
					case !rolesHave(cr.user, perms, ua.PermissionTypeCall):
						deny(ua.BadUserAccessDenied)
					case !m.hand:
						deny(0)
					}
					obperms := gDefaultPerms
					switch r.Intn(14) {
					case 0:
						q.ObjectID = hidden.NodeID()
						if !rolesHave(cr.user, hidden.RolePermissions(), ua.PermissionTypeBrowse) {
							deny(ua.BadNodeIDUnknown)
						}
						obperms = hidden.RolePermissions()
					case 1:
						q.ObjectID = ua.NewNodeIDString(ns, "X01.absent")
						deny(ua.BadNodeIDUnknown)
					case 2:
						q.MethodID = ua.NewNodeIDString(ns, "X01.absent")
						deny(ua.BadMethodInvalid)
					case 3:
						q.MethodID = v.NodeID()
						deny(0)
					case 4:
						q.ObjectID = v.NodeID()
						deny(0)
					case 5:
						q.ObjectID, q.MethodID = nil, nil
						deny(0)
					}
					if !rolesHave(cr.user, obperms, ua.PermissionTypeBrowse) {
						deny(ua.BadNodeIDUnknown)
					}
					req.MethodsToCall = append(req.MethodsToCall, q)
					ws = append(ws, wt)
				}
				res, err := cr.call(req)
				if err != nil {
					c.Violate("service", "call of %d methods: %v", len(ws), err)
					return
				}
				if len(res.Results) != len(ws) {
					c.Violate("service", "%d results for %d calls", len(res.Results), len(ws))
					return
				}
				for i, wt := range ws {
					got := res.Results[i]
					mu.Lock()
					invs := append([]x01Inv{}, log[wt.nonce]...)
					mu.Unlock()
					c.Eval(fmt.Sprintf("%s/%s/%v/%d/%s", wt.m.name, cr.user, wt.refuse, uint32(got.StatusCode), clip(dumpAny(wt.args[1:]))))
					if wt.refuse {
						if len(invs) > 0 {
							c.Violate("refused-runs", "user %q: refused call of %v on %v ran the handler %d times", cr.user, req.MethodsToCall[i].MethodID, req.MethodsToCall[i].ObjectID, len(invs))
						}
						if !got.StatusCode.IsBad() || wt.status != 0 && got.StatusCode != wt.status || len(got.OutputArguments) > 0 {
							c.Violate("status", "user %q: call of %v on %v gives %#x, expected refusal %#x", cr.user, req.MethodsToCall[i].MethodID, req.MethodsToCall[i].ObjectID, uint32(got.StatusCode), uint32(wt.status))
						}
						c.Count("refused", 1)
						continue
					}
					if len(invs) != 1 {
						c.Violate("once", "user %q: call %d of %v invoked the handler %d times (status %#x)", cr.user, wt.nonce, wt.m.name, len(invs), uint32(got.StatusCode))
						continue
					}
					inv := invs[0]
					if inv.method != wt.m.name || inv.args != dumpAny(wt.args) || inv.session != cr.session || inv.user != cr.user || inv.object != req.MethodsToCall[i].ObjectID {
						c.Violate("arguments", "call of %s by user %q session %s with %s reached handler %s as user %q session %s with %s", wt.m.name, cr.user, cr.session, clip(dumpAny(wt.args)), inv.method, inv.user, inv.session, clip(inv.args))
					}
					if got.StatusCode != inv.result.StatusCode || dumpAny(got.OutputArguments) != dumpAny(inv.result.OutputArguments) || dumpAny(got.InputArgumentResults) != dumpAny(inv.result.InputArgumentResults) {
						c.Violate("result", "call %d: handler returned %s, caller received %s", wt.nonce, clip(dumpAny(inv.result)), clip(dumpAny(got)))
					}
					c.Count("invoked", 1)
					c.Sample("call", map[string]any{"user": cr.user, "method": wt.m.name, "args": clip(dumpAny(wt.args)), "status": uint32(got.StatusCode)})
				}
			}
		}(cr, r.Int63())
	}
	wg.Wait()
	// conservation: no invocation without a call
	mu.Lock()
	defer mu.Unlock()
	if !c.Violated() && int64(len(equalLog)) != equalMade {
		c.Violate("once", "%d equal calls were answered and %d invoked", equalMade, len(equalLog))
	}
	for n, invs := range log {
		if n < 1 || n > nonce || len(invs) != 1 {
			c.Violate("once", "nonce %d was invoked %d times", n, len(invs))
		}
	}
}
