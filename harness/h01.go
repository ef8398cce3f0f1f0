package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("H01", &check{run: runH01, minEvals: 4000, minDistinct: 60,
		rule:        "clients and the application write historizing variables at once, and the historian's log is judged against the writes: each accepted value once, each refused or not historized value never, in order; clients of different users read history of generated node lists with generated details while the historian answers with data made from the request, and the response must be exactly that data, node by node, refusals in their places",
		assumptions: []string{"which nodes of the other class a historian gets for event or data details, and results of a historian that does not answer with one result per node, are not judged"}})
}

// ---- writes ----

type h01Var struct {
	v       *server.VariableNode
	id      ua.NodeID
	kind    string
	expect  bool // is historized
	handler bool
	mu      sync.Mutex
	writes  []h01Write
	hist    *recHistorian
}

type h01Write struct {
	key        string // unique within the variable
	dv         ua.DataValue
	start, end int64
	ok         bool
	app        bool // by the application, with its timestamp
}

// h01Key finds the unique part of a written value.
func h01Keys(v ua.Variant) []string {
	switch x := v.(type) {
	case string:
		return []string{x}
	case int64:
		return []string{fmt.Sprint(x)}
	case []int64:
		var out []string
		for i, e := range x {
			if e != 0 {
				out = append(out, fmt.Sprintf("%d:%d", i, e))
			}
		}
		return out
	}
	return nil
}

type h01 struct {
	c    *Ctx
	w    *World
	ns   uint16
	t0   time.Time
	vars []*h01Var
	uniq int64
}

func (x *h01) now() int64 { return int64(time.Since(x.t0)) + 1 }

const h01Set = `<?xml version="1.0" encoding="utf-8"?>
<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:verif:nodes</Uri></NamespaceUris>
<UAVariable NodeId="ns=1;s=H01.loaded" BrowseName="1:loaded" DataType="i=12" ValueRank="-1" AccessLevel="7" UserAccessLevel="7" Historizing="true"><DisplayName>loaded</DisplayName>
<References><Reference ReferenceType="i=35" IsForward="false">i=85</Reference><Reference ReferenceType="i=40">i=63</Reference></References></UAVariable></UANodeSet>`

func (x *h01) writes(r *rand.Rand, h *recHistorian) {
	c, w := x.c, x.w
	if x.vars == nil {
		other := &recHistorian{}
		add := func(name string, v ua.Variant, dt ua.NodeID, rank int32, hist bool, hi server.HistoryReadWriter, rec *recHistorian, handler bool, perms []ua.RolePermissionType) {
			k := &h01Var{kind: name, expect: hist && hi != nil, handler: handler, hist: rec}
			sp := VarSpec{Name: "H01." + name, Value: v, DataType: dt, Rank: rank, Access: 0x6f, Hist: hist, Perms: perms}
			if hi != nil {
				sp.Historian = hi
			}
			k.v = w.addVar(sp)
			k.id = k.v.NodeID()
			if handler {
				k.v.SetWriteValueHandler(func(_ *server.Session, q ua.WriteValue) (ua.DataValue, ua.StatusCode) {
					s, _ := q.Value.Value.(string)
					if len(s)%3 == 0 {
						return ua.DataValue{}, ua.BadOutOfRange
					}
					d := q.Value
					d.Value = s + "!"
					return d, ua.Good
				})
			}
			x.vars = append(x.vars, k)
		}
		add("str", "", ua.DataTypeIDString, -1, true, h, h, false, nil)
		add("int", int64(0), ua.DataTypeIDInt64, -1, true, h, h, false, nil)
		add("list", make([]int64, 8), ua.DataTypeIDInt64, 1, true, h, h, false, nil)
		add("handled", "", ua.DataTypeIDString, -1, true, h, h, true, nil)
		add("other", "", ua.DataTypeIDString, -1, true, other, other, false, nil)
		add("off", "", ua.DataTypeIDString, -1, false, h, h, false, nil)
		add("none", "", ua.DataTypeIDString, -1, true, nil, h, false, nil)
		add("guarded", "", ua.DataTypeIDString, -1, true, h, h, false, []ua.RolePermissionType{
			{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: ua.PermissionTypeBrowse | ua.PermissionTypeRead},
			{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: allPermissions}})
		must(w.Srv.NamespaceManager().LoadNodeSetFromBuffer([]byte(h01Set)))
		lid := ua.NewNodeIDString(x.ns, "H01.loaded")
		lv, ok := w.Srv.NamespaceManager().FindVariable(lid)
		if !ok {
			c.Violate("loaded", "a variable of a node set is not there")
			return
		}
		x.vars = append(x.vars, &h01Var{kind: "loaded", expect: true, v: lv, id: lid, hist: h})
	}
	users := []string{"", "user1", "user2"}
	for phase := 0; phase < c.N(3, 8) && !c.Violated(); phase++ {
		if phase%2 == 1 { // historizing is switched
			rc, err := w.RawUser(raw.None, 0, "user1", userDB["user1"])
			must(err)
			for _, v := range x.vars {
				if r.Intn(2) == 0 {
					continue
				}
				on := !v.v.Historizing()
				if r.Intn(2) == 0 {
					v.v.SetHistorizing(on)
				} else {
					res, err := rc.Do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: v.id, AttributeID: ua.AttributeIDHistorizing, Value: ua.DataValue{Value: on}}}})
					must(err)
					if sc := res.(*ua.WriteResponse).Results[0]; sc != ua.Good {
						c.Violate("historizing", "writing Historizing of %s: %v", v.kind, sc)
					}
				}
				v.expect = on && v.kind != "none"
				c.Eval(fmt.Sprintf("switch/%s/%v", v.kind, on))
			}
			rc.Close()
		}
		base := map[*h01Var]int{}
		for _, v := range x.vars {
			v.writes = nil
			base[v] = len(h01Log(v))
		}
		var wg sync.WaitGroup
		var seen sync.Map
		for g := 0; g < 6; g++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				u := users[g%3]
				var rc *raw.Client
				if g < 5 {
					var err error
					rc, err = h01Client(w, u)
					must(err)
					defer rc.Close()
				}
				for n := 0; n < c.N(60, 150); n++ {
					// several variables in one request, maybe the same several times
					k := 1 + rr.Intn(4)
					var ws []h01Write
					var vs []*h01Var
					var req []ua.WriteValue
					for i := 0; i < k; i++ {
						v := x.vars[rr.Intn(len(x.vars))]
						u := atomic.AddInt64(&x.uniq, 1)
						wv := ua.WriteValue{NodeID: v.id, AttributeID: ua.AttributeIDValue}
						key := ""
						switch v.kind {
						case "int":
							wv.Value.Value, key = u, fmt.Sprint(u)
						case "list":
							at := rr.Intn(8)
							wv.Value.Value, wv.IndexRange, key = []int64{u}, fmt.Sprint(at), fmt.Sprintf("%d:%d", at, u)
						default:
							key = fmt.Sprintf("%d-%s", u, "abcdefgh"[:rr.Intn(8)])
							wv.Value.Value = key
						}
						switch rr.Intn(8) {
						case 0:
							wv.Value.SourceTimestamp = e01Time.Add(time.Duration(rr.Intn(1e9)) * 100)
						case 1:
							wv.Value.StatusCode = ua.StatusCode(0x40000000)
						case 2: // refused
							if g < 5 {
								wv.Value.Value = 3.5
							}
						case 3:
							if g < 5 && v.kind != "list" {
								wv.IndexRange = "7:1"
							}
						}
						if v.handler && g < 5 {
							if s, ok := wv.Value.Value.(string); ok {
								key = s + "!"
							}
						}
						req, vs, ws = append(req, wv), append(vs, v), append(ws, h01Write{key: key, dv: wv.Value})
						if v.handler && g < 5 {
							ws[i].dv.Value = key
						}
					}
					start := x.now()
					if g == 5 { // the application
						for i, v := range vs {
							ws[i].start = x.now()
							if v.kind == "list" {
								continue
							}
							v.v.SetValue(ws[i].dv)
							ws[i].end, ws[i].ok, ws[i].app = x.now(), true, true
						}
					} else {
						res, err := rc.Do(&ua.WriteRequest{NodesToWrite: req})
						if err != nil {
							c.Violate("write", "%v", err)
							return
						}
						for i, sc := range res.(*ua.WriteResponse).Results {
							ws[i].start, ws[i].end, ws[i].ok = start, x.now(), sc == ua.Good
							if vs[i].kind == "guarded" && u == "" && sc == ua.Good {
								c.Violate("guarded", "a write without permission succeeds")
							}
							c.Eval(fmt.Sprintf("write/%s/%v", vs[i].kind, sc == ua.Good))
						}
						// of several writes to one variable, the next starts after the one before it
					}
					for i, v := range vs {
						v.mu.Lock()
						v.writes = append(v.writes, ws[i])
						v.mu.Unlock()
					}
				}
			}()
		}
		// readers: what is read goes the way of the log
		var stop atomic.Bool
		var rg sync.WaitGroup
		rg.Add(1)
		go func() {
			defer rg.Done()
			rc, err := w.RawUser(raw.None, 0, "user1", userDB["user1"])
			must(err)
			defer rc.Close()
			for !stop.Load() {
				var q []ua.ReadValueID
				for _, v := range x.vars {
					q = append(q, ua.ReadValueID{NodeID: v.id, AttributeID: 13})
				}
				res, err := rc.Do(&ua.ReadRequest{NodesToRead: q})
				must(err)
				for i, dv := range res.(*ua.ReadResponse).Results {
					l, _ := seen.LoadOrStore(x.vars[i], &[]ua.Variant{})
					p := l.(*[]ua.Variant)
					if len(*p) == 0 || !reflect.DeepEqual((*p)[len(*p)-1], dv.Value) {
						*p = append(*p, dv.Value)
					}
				}
			}
		}()
		wg.Wait()
		stop.Store(true)
		rg.Wait()
		for _, v := range x.vars {
			x.judge(v, h01Log(v)[base[v]:], &seen)
		}
	}
}

// h01Log gives the values recorded for a variable.
func h01Log(v *h01Var) []ua.DataValue {
	v.hist.mu.Lock()
	defer v.hist.mu.Unlock()
	var out []ua.DataValue
	for _, w := range v.hist.writes {
		if w.id == v.id {
			out = append(out, w.v)
		}
	}
	return out
}

func (x *h01) judge(v *h01Var, log []ua.DataValue, seen *sync.Map) {
	c := x.c
	if !v.expect {
		if len(log) > 0 {
			c.Violate("recorded/"+v.kind, "%d values of variable %s, which is not historized, are recorded", len(log), v.kind)
		}
		c.Eval("log/" + v.kind + "/none")
		return
	}
	by := map[string]*h01Write{}
	for i := range v.writes {
		if w := &v.writes[i]; w.key != "" {
			by[w.key] = w
		}
	}
	pos := map[string]int{}
	var maxStart int64
	had := map[string]bool{}
	for i, dv := range log {
		keys := h01Keys(dv.Value)
		var fresh []string
		for _, k := range keys {
			if !had[k] && (by[k] != nil || i > 0 || v.kind != "list") {
				fresh = append(fresh, k)
			}
			had[k] = true
		}
		if v.kind == "list" && i == 0 { // earlier elements
			fresh = nil
			for _, k := range keys {
				if by[k] != nil {
					fresh = append(fresh, k)
				}
			}
		}
		if len(fresh) != 1 {
			c.Violate("recorded/"+v.kind, "entry %d of the history of %s, %v, does not follow from one write (%v)", i, v.kind, dv.Value, fresh)
			return
		}
		w := by[fresh[0]]
		if w == nil || !w.ok {
			c.Violate("recorded/"+v.kind, "the history of %s has %v, which was not written or was refused", v.kind, dv.Value)
			return
		}
		if dv.StatusCode != w.dv.StatusCode || w.app && !dv.SourceTimestamp.Equal(w.dv.SourceTimestamp) {
			c.Violate("recorded/"+v.kind, "the history of %s has %v %v %v, written was %v %v", v.kind, dv.Value, dv.StatusCode, dv.SourceTimestamp, w.dv.StatusCode, w.dv.SourceTimestamp)
		}
		if w.end < maxStart {
			c.Violate("order/"+v.kind, "the history of %s has %v after a value whose write began after its own ended", v.kind, dv.Value)
		}
		maxStart = max(maxStart, w.start)
		pos[fresh[0]] = i
	}
	n := 0
	for k, w := range by {
		if w.ok {
			n++
			if _, ok := pos[k]; !ok {
				c.Violate("lost/"+v.kind, "a value written to %s is not in its history: %v (of %d recorded)", v.kind, w.dv.Value, len(log))
			}
		}
	}
	if n != len(log) {
		c.Violate("count/"+v.kind, "%d values written to %s, %d recorded", n, v.kind, len(log))
	}
	if len(log) > 0 {
		if last := log[len(log)-1]; !reflect.DeepEqual(last.Value, v.v.Value().Value) {
			c.Violate("last/"+v.kind, "the last value in the history of %s is %v, its value is %v", v.kind, last.Value, v.v.Value().Value)
		}
	}
	if l, ok := seen.Load(v); ok && v.kind != "list" {
		at := -1
		for _, s := range *l.(*[]ua.Variant) {
			if p, ok := pos[fmt.Sprint(s)]; ok {
				if p < at {
					c.Violate("seen/"+v.kind, "a client sees the values of %s in another order than its history", v.kind)
				}
				at = p
				c.Count("seen_values", 1)
			}
		}
	}
	c.Count("recorded_values", len(log))
	c.Eval(fmt.Sprintf("log/%s/%d", v.kind, len(log)/40))
}

// ---- reads ----

type h01Node struct {
	id     ua.NodeID
	what   string
	object bool
	perms  []ua.RolePermissionType
	level  bool
	known  bool
}

// h01Result makes the result for a node from the request.
func h01Result(k histCall, i int) ua.HistoryReadResult {
	b, err := raw.Encode(&ua.HistoryReadRequest{HistoryReadDetails: k.details, TimestampsToReturn: k.ts, ReleaseContinuationPoints: k.release, NodesToRead: k.nodes[i : i+1]})
	if err != nil {
		panic(err)
	}
	var seed int64
	for _, x := range b {
		seed = seed*131 + int64(x)
	}
	r := rand.New(rand.NewSource(seed))
	res := ua.HistoryReadResult{}
	if r.Intn(5) == 0 {
		return ua.HistoryReadResult{StatusCode: pick(r, ua.BadNodeIDUnknown, ua.BadNoData, ua.BadContinuationPointInvalid, ua.GoodNoData)}
	}
	if r.Intn(3) == 0 {
		res.ContinuationPoint = ua.ByteString(fmt.Sprintf("cp%d", r.Int63()))
	}
	dv := func() ua.DataValue {
		d := ua.DataValue{Value: pick[ua.Variant](r, r.Int63(), "v", 2.5, []int32{1, 2}, true)}
		if k.ts == ua.TimestampsToReturnSource || k.ts == ua.TimestampsToReturnBoth {
			d.SourceTimestamp = e01Time.Add(time.Duration(r.Intn(1e9)) * 100)
		}
		if k.ts == ua.TimestampsToReturnServer || k.ts == ua.TimestampsToReturnBoth {
			d.ServerTimestamp = e01Time.Add(time.Duration(r.Intn(1e9)) * 100)
		}
		if r.Intn(4) == 0 {
			d.StatusCode = ua.BadNoCommunication
		}
		return d
	}
	n := 1 + r.Intn(6)
	if r.Intn(20) == 0 {
		n = 3000
	}
	switch d := k.details.(type) {
	case ua.ReadEventDetails:
		h := ua.HistoryEvent{}
		for j := 0; j < n; j++ {
			f := ua.HistoryEventFieldList{}
			for range d.Filter.SelectClauses {
				f.EventFields = append(f.EventFields, pick[ua.Variant](r, r.Int63(), "text", ua.LocalizedText{Text: "x"}, nil))
			}
			f.EventFields = append(f.EventFields, r.Int63())
			h.Events = append(h.Events, f)
		}
		res.HistoryData = h
	case ua.ReadRawModifiedDetails:
		if d.IsReadModified {
			h := ua.HistoryModifiedData{}
			for j := 0; j < n; j++ {
				h.DataValues = append(h.DataValues, dv())
				h.ModificationInfos = append(h.ModificationInfos, ua.ModificationInfo{ModificationTime: e01Time, UpdateType: ua.HistoryUpdateType(1 + r.Intn(4)), UserName: "u"})
			}
			res.HistoryData = h
			break
		}
		h := ua.HistoryData{}
		for j := 0; j < n; j++ {
			h.DataValues = append(h.DataValues, dv())
		}
		res.HistoryData = h
	default:
		h := ua.HistoryData{}
		for j := 0; j < n; j++ {
			h.DataValues = append(h.DataValues, dv())
		}
		res.HistoryData = h
	}
	return res
}

// h01Start is the unique time by which a request is known.
func h01Start(details any) (t time.Time, kind string) {
	switch d := details.(type) {
	case ua.ReadEventDetails:
		return d.StartTime.UTC(), "event"
	case ua.ReadRawModifiedDetails:
		return d.StartTime.UTC(), "raw"
	case ua.ReadProcessedDetails:
		return d.StartTime.UTC(), "processed"
	case ua.ReadAtTimeDetails:
		if len(d.ReqTimes) > 0 {
			return d.ReqTimes[0].UTC(), "attime"
		}
	}
	return
}

func (x *h01) reads(r *rand.Rand, h *recHistorian) {
	c, w := x.c, x.w
	nm := w.Srv.NamespaceManager()
	roles := []ua.NodeID{ua.ObjectIDWellKnownRoleAnonymous, ua.ObjectIDWellKnownRoleAuthenticatedUser, ua.ObjectIDWellKnownRoleOperator, ua.ObjectIDWellKnownRoleObserver, ua.ObjectIDWellKnownRoleEngineer, ua.ObjectIDWellKnownRoleSupervisor}
	var nodes []h01Node
	for k := 0; k < 40; k++ {
		n := h01Node{known: true, level: true, object: k%4 == 3, perms: gDefaultPerms}
		var perms []ua.RolePermissionType
		n.what = "open"
		switch r.Intn(4) {
		case 0:
			perms = []ua.RolePermissionType{}
			for _, ro := range roles {
				perms = append(perms, ua.RolePermissionType{RoleID: ro, Permissions: pick(r, ua.PermissionTypeBrowse, ua.PermissionTypeBrowse|ua.PermissionTypeRead|ua.PermissionTypeWrite, ua.PermissionTypeReadHistory, ua.PermissionTypeBrowse|ua.PermissionTypeReadHistory, 0)})
			}
			n.perms, n.what = perms, "guarded"
		case 1:
			if !n.object {
				n.level, n.what = false, "no-history"
			}
		}
		if n.object {
			o := server.NewObjectNode(w.Srv, ua.NewNodeIDNumeric(x.ns, uint32(80000+k)), ua.NewQualifiedName(x.ns, "ho"), ua.NewLocalizedText("ho", ""), ua.LocalizedText{}, perms, []ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}, ua.EventNotifierSubscribeToEvents|ua.EventNotifierHistoryRead)
			must(nm.AddNode(o))
			n.id = o.NodeID()
		} else {
			acc := byte(ua.AccessLevelsCurrentRead)
			if n.level {
				acc |= ua.AccessLevelsHistoryRead
			}
			n.id = w.addVar(VarSpec{Name: fmt.Sprintf("H01.r%d", k), Value: int32(1), DataType: ua.DataTypeIDInt32, Access: acc, Perms: perms}).NodeID()
		}
		nodes = append(nodes, n)
	}
	for k := 0; k < 4; k++ {
		nodes = append(nodes, h01Node{id: pick[ua.NodeID](r, ua.NewNodeIDString(x.ns, fmt.Sprint("H01.absent", k)), ua.NewNodeIDNumeric(77, 1), nil), what: "absent", object: k%2 == 0})
	}
	var mu sync.Mutex
	calls := map[string][]histCall{}
	fail := map[string]ua.StatusCode{}
	h.answer = func(k histCall) ([]ua.HistoryReadResult, ua.StatusCode) {
		t, kind := h01Start(k.details)
		mu.Lock()
		calls[t.String()] = append(calls[t.String()], k)
		f, bad := fail[t.String()]
		mu.Unlock()
		_ = kind
		if t.Nanosecond()/100%7 == 0 {
			time.Sleep(time.Duration(t.Nanosecond()/100%10) * time.Millisecond)
		}
		if bad {
			return nil, f
		}
		res := make([]ua.HistoryReadResult, len(k.nodes))
		for i := range res {
			res[i] = h01Result(k, i)
		}
		return res, ua.Good
	}
	var wg sync.WaitGroup
	var uniq atomic.Int64
	users := []string{"", "root", "user1", "user2", "op"}
	for g := 0; g < 10; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			u := users[g%5]
			var do func(q *ua.HistoryReadRequest) (*ua.HistoryReadResponse, error)
			if g < 5 {
				rc, err := h01Client(w, u)
				must(err)
				defer rc.Close()
				do = func(q *ua.HistoryReadRequest) (*ua.HistoryReadResponse, error) {
					res, err := rc.Do(q)
					if err != nil {
						return nil, err
					}
					return res.(*ua.HistoryReadResponse), nil
				}
			} else {
				var opts []client.Option
				if u != "" {
					opts = append(opts, client.WithUserNameIdentity(u, userDB[u]))
				}
				cl, err := w.Dial(raw.None, raw.ModeNone, opts...)
				must(err)
				defer cl.Abort(context.Background())
				do = func(q *ua.HistoryReadRequest) (*ua.HistoryReadResponse, error) {
					ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
					defer cancel()
					return cl.HistoryRead(ctx, q)
				}
			}
			for n := 0; n < c.N(150, 400) && !c.Violated(); n++ {
				start := e01Time.Add(time.Duration(uniq.Add(1)) * time.Second).Add(time.Duration(rr.Intn(100)) * 100)
				q := &ua.HistoryReadRequest{TimestampsToReturn: ua.TimestampsToReturn(rr.Intn(3)), ReleaseContinuationPoints: rr.Intn(4) == 0}
				if rr.Intn(15) == 0 { // history without timestamps does not exist
					q.TimestampsToReturn = pick(rr, ua.TimestampsToReturnNeither, ua.TimestampsToReturn(4), -1)
				}
				end := e01Time.Add(-time.Duration(rr.Intn(1e6)) * time.Second)
				switch rr.Intn(5) {
				case 0:
					q.HistoryReadDetails = ua.ReadEventDetails{NumValuesPerNode: rr.Uint32(), StartTime: start, EndTime: end, Filter: ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses[:rr.Intn(9)]}}
				case 1:
					q.HistoryReadDetails = ua.ReadRawModifiedDetails{IsReadModified: rr.Intn(2) == 0, StartTime: start, EndTime: end, NumValuesPerNode: rr.Uint32(), ReturnBounds: rr.Intn(2) == 0}
				case 2:
					q.HistoryReadDetails = ua.ReadProcessedDetails{StartTime: start, EndTime: end, ProcessingInterval: rr.Float64() * 1000, AggregateType: []ua.NodeID{ua.NewNodeIDNumeric(0, 2342)}, AggregateConfiguration: ua.AggregateConfiguration{UseServerCapabilitiesDefaults: true, PercentDataBad: 7}}
				case 3:
					d := ua.ReadAtTimeDetails{ReqTimes: []time.Time{start}, UseSimpleBounds: rr.Intn(2) == 0}
					for i := rr.Intn(5); i > 0; i-- {
						d.ReqTimes = append(d.ReqTimes, end)
					}
					q.HistoryReadDetails = d
				case 4:
					q.HistoryReadDetails = pick[any](rr, ua.ReadAnnotationDataDetails{ReqTimes: []time.Time{start}}, nil, ua.Argument{Name: "x"}, ua.HistoryData{})
				}
				_, kind := h01Start(q.HistoryReadDetails)
				var list []h01Node
				for k := 1 + rr.Intn(8); len(list) < k; {
					nd := nodes[rr.Intn(len(nodes))]
					if nd.object == (kind == "event") || kind == "" {
						list = append(list, nd)
						q.NodesToRead = append(q.NodesToRead, ua.HistoryReadValueID{NodeID: nd.id, IndexRange: pick(rr, "", "", "1:2"), DataEncoding: pick(rr, ua.QualifiedName{}, ua.QualifiedName{Name: "Default Binary"}), ContinuationPoint: pick(rr, "", "", ua.ByteString(fmt.Sprintf("cp-%d", n)))})
					}
				}
				broken := rr.Intn(12) == 0
				if broken && kind != "" {
					mu.Lock()
					fail[start.String()] = ua.BadResourceUnavailable
					mu.Unlock()
				}
				// what is expected
				var pass []ua.HistoryReadValueID
				refused := make([]bool, len(list))
				for i, nd := range list {
					refused[i] = !nd.known || !nd.level || !rolesHave(u, nd.perms, ua.PermissionTypeBrowse) || !rolesHave(u, nd.perms, ua.PermissionTypeReadHistory)
					if !refused[i] {
						pass = append(pass, q.NodesToRead[i])
					}
				}
				cp := *q
				res, err := do(&cp)
				sig := fmt.Sprintf("read/%s/%v/%d/%d", kind, u == "", len(pass), len(list)-len(pass))
				c.Eval(sig)
				mu.Lock()
				got := calls[start.String()]
				mu.Unlock()
				if kind == "" {
					ok := err != nil
					if !ok && len(pass) == 0 && len(res.Results) == len(list) {
						ok = true
						for _, x := range res.Results {
							ok = ok && x.StatusCode.IsBad()
						}
					}
					if !ok {
						c.Violate("unsupported", "history read with details %T is answered with %v", q.HistoryReadDetails, res)
					}
					if len(got) > 0 {
						c.Violate("unsupported", "the historian is called for details %T", q.HistoryReadDetails)
					}
					continue
				}
				if q.TimestampsToReturn < 0 || q.TimestampsToReturn > 2 {
					if err == nil || len(got) > 0 {
						c.Violate("timestamps", "history read with timestamps %d gives %v", q.TimestampsToReturn, res)
					}
					continue
				}
				// the calls of the historian
				var nds []ua.HistoryReadValueID
				for _, k := range got {
					if k.kind != kind || k.ts != q.TimestampsToReturn || k.release != q.ReleaseContinuationPoints || !h01Equal(k.details, q.HistoryReadDetails) {
						c.Violate("call/"+kind, "the historian is asked for %s %+v %v %v, the client asked for %s %+v %v %v", k.kind, k.details, k.ts, k.release, kind, q.HistoryReadDetails, q.TimestampsToReturn, q.ReleaseContinuationPoints)
					}
					nds = append(nds, k.nodes...)
				}
				if len(nds) != len(pass) || len(pass) > 0 && !h01Equal(nds, pass) {
					c.Violate("call/nodes", "the historian is asked for nodes %v, the client %q may read %v (details %+v, %v)", nds, u, pass, q.HistoryReadDetails, err)
					continue
				}
				if broken && len(pass) > 0 {
					if err == nil {
						c.Violate("broken", "the historian fails, and the client gets %v", res)
					} else if err != ua.BadResourceUnavailable {
						c.Violate("broken", "the historian fails with BadResourceUnavailable, the client gets %v", err)
					}
					continue
				}
				if err != nil {
					c.Violate("service/"+kind, "history read fails: %v", err)
					continue
				}
				if len(res.Results) != len(list) {
					c.Violate("results", "%d results for %d nodes", len(res.Results), len(list))
					continue
				}
				for i := range list {
					if refused[i] {
						if !res.Results[i].StatusCode.IsBad() || res.Results[i].HistoryData != nil {
							c.Violate("refused/"+list[i].what, "user %q may not read the history of node %v (%s), and gets %v", u, list[i].id, list[i].what, res.Results[i])
						}
						continue
					}
					want := h01Result(histCall{kind: kind, nodes: q.NodesToRead, details: q.HistoryReadDetails, ts: q.TimestampsToReturn, release: q.ReleaseContinuationPoints}, i)
					if !h01Equal(want, res.Results[i]) {
						c.Violate("result/"+kind, "node %d of %d: the historian says %.300s, the client gets %.300s", i, len(list), fmt.Sprint(want), fmt.Sprint(res.Results[i]))
					}
					c.Eval("result/" + kind)
				}
			}
		}()
	}
	if !within(200*time.Second, wg.Wait) {
		c.Violate("hang", "history reads are not answered")
	}
}

// h01Equal compares by the encoded form.
func h01Equal(a, b any) bool {
	enc := func(v any) []byte {
		req := &ua.HistoryReadResponse{}
		switch x := v.(type) {
		case ua.HistoryReadResult:
			req.Results = []ua.HistoryReadResult{x}
		case []ua.HistoryReadValueID:
			b, err := raw.Encode(&ua.HistoryReadRequest{NodesToRead: x})
			must(err)
			return b
		default:
			b, err := raw.Encode(&ua.HistoryReadRequest{HistoryReadDetails: v})
			must(err)
			return b
		}
		b, err := raw.Encode(req)
		must(err)
		return b
	}
	return bytes.Equal(enc(a), enc(b))
}

func runH01(c *Ctx) {
	for k := 0; k < c.N(8, 24) && !c.Violated(); k++ {
		r := c.Rng(fmt.Sprintf("world%d", k))
		h := &recHistorian{}
		if k%2 == 1 {
			h.delay = func() { time.Sleep(100 * time.Microsecond) }
		}
		w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithGetRolesFunc(gRoles), server.WithRolePermissions(gDefaultPerms), server.WithHistorian(h), bigCaps()}})
		x := &h01{c: c, w: w, ns: w.ensureNS(), t0: time.Now()}
		x.writes(r, h)
		if !c.Violated() {
			x.reads(r, h)
		}
		go w.Srv.Close()
	}
	// no historian
	w := newWorld(c, WorldOpts{})
	defer func() { go w.Srv.Close() }()
	id := w.addVar(VarSpec{Name: "H01.plain", Value: int32(1), DataType: ua.DataTypeIDInt32, Access: 0x7f, Hist: true}).NodeID()
	rc, err := w.RawSession(raw.None, 0)
	must(err)
	defer rc.Close()
	for _, d := range []any{ua.ReadRawModifiedDetails{}, ua.ReadEventDetails{}, ua.ReadProcessedDetails{}, ua.ReadAtTimeDetails{}, nil} {
		res, err := rc.Do(&ua.HistoryReadRequest{HistoryReadDetails: d, NodesToRead: []ua.HistoryReadValueID{{NodeID: id}}})
		c.Eval("no-historian")
		if err == nil {
			if rs := res.(*ua.HistoryReadResponse).Results; len(rs) != 1 || !rs[0].StatusCode.IsBad() {
				c.Violate("no-historian", "a server without historian answers %v", res)
			}
		}
		if _, err := rc.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: 13}}}); err != nil {
			c.Violate("no-historian", "after a history read: %v", err)
		}
	}
}

func h01Client(w *World, u string) (*raw.Client, error) {
	if u == "" {
		return w.RawSession(raw.None, 0)
	}
	return w.RawUser(raw.None, 0, u, userDB[u])
}
