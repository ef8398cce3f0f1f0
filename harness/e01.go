package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("E01", &check{run: runE01, minEvals: 3000, minDistinct: 60,
		rule:        "events of several kinds and types are raised by many goroutines on nodes of generated notifier hierarchies, while items with generated filters are created, modified, switched and deleted; every notification is judged against the log of raised events with a model of routing, filters and fields: exactly the events an item must have, once, in order of raising, with exactly the selected fields",
		assumptions: []string{"raising and requests that overlap in time may take effect in either order", "operators other than Equals and OfType, comparing different numeric types and comparing null with null may give any result"}})
}

// ---- model of events ----

// e01Field is one field an event declares.
type e01Field struct {
	decl ua.NodeID // type that declares it
	path string
	attr uint32
	val  ua.Variant
}

type e01Event struct {
	id         string
	kind       string
	typ        ua.NodeID
	fields     []e01Field
	real       ua.Event
	target     int
	raiser, n  int
	start, end int64 // ns since start of the world; end 0: not ended
	at         map[int]bool
}

// attr gives the value of a clause, as the specification says.
func (e *e01Event) attrOf(c *ua.SimpleAttributeOperand) ua.Variant {
	if c.IndexRange != "" {
		return nil
	}
	p := make([]string, len(c.BrowsePath))
	for i, q := range c.BrowsePath {
		p[i] = fmt.Sprintf("%d:%s", q.NamespaceIndex, q.Name)
	}
	path := strings.Join(p, "/")
	for _, f := range e.fields {
		if f.path == path && f.attr == c.AttributeID && (c.TypeDefinitionID == ua.ObjectTypeIDBaseEventType || c.TypeDefinitionID == f.decl) {
			return f.val
		}
	}
	return nil
}

// e01Custom is an event type of the application.
type e01Custom struct {
	ua.BaseEvent
	typ   ua.NodeID
	extra []e01Field
}

func (e *e01Custom) GetAttribute(c ua.SimpleAttributeOperand) ua.Variant {
	for _, f := range e.extra {
		if len(c.BrowsePath) == 1 && fmt.Sprintf("%d:%s", c.BrowsePath[0].NamespaceIndex, c.BrowsePath[0].Name) == f.path && c.AttributeID == f.attr && c.IndexRange == "" && (c.TypeDefinitionID == e.typ || c.TypeDefinitionID == ua.ObjectTypeIDBaseEventType) {
			return f.val
		}
	}
	return e.BaseEvent.GetAttribute(c)
}

type e01Filter struct {
	ua.EventFilter
	id   int // position of the event id
	what string
}

// ---- model of where clauses ----

type e01Val struct {
	v    ua.Variant
	free bool // any result is right
}

func e01Numeric(v ua.Variant) bool {
	if v == nil {
		return false
	}
	k := reflect.TypeOf(v).Kind()
	return k >= reflect.Int8 && k <= reflect.Float64
}

func (x *e01) eval(f *e01Filter, e *e01Event) e01Val {
	els := f.WhereClause.Elements
	if len(els) == 0 {
		return e01Val{true, false}
	}
	res := make([]e01Val, len(els))
	for i := len(els) - 1; i >= 0; i-- {
		el := els[i]
		operand := func(k int) e01Val {
			switch o := el.FilterOperands[k].(type) {
			case ua.LiteralOperand:
				return e01Val{o.Value, false}
			case ua.SimpleAttributeOperand:
				return e01Val{e.attrOf(&o), false}
			case ua.ElementOperand:
				return res[o.Index]
			}
			panic("operand")
		}
		switch el.FilterOperator {
		case ua.FilterOperatorEquals:
			a, b := operand(0), operand(1)
			switch {
			case a.free || b.free || a.v == nil && b.v == nil:
				res[i].free = true
			case e01Numeric(a.v) && e01Numeric(b.v) && reflect.TypeOf(a.v) != reflect.TypeOf(b.v):
				res[i].free = true
			default:
				res[i].v = e01Same(a.v, b.v)
			}
		case ua.FilterOperatorOfType:
			res[i].v = x.isA(e.typ, operand(0).v.(ua.NodeID))
		}
	}
	return res[0]
}

func e01Same(a, b ua.Variant) bool {
	if t, ok := a.(time.Time); ok {
		u, ok := b.(time.Time)
		return ok && t.Equal(u)
	}
	return reflect.DeepEqual(a, b)
}

func (x *e01) isA(t, super ua.NodeID) bool {
	for k := 0; t != nil && k < 200; k++ {
		if t == super {
			return true
		}
		t = x.super[t]
	}
	return false
}

// ---- world ----

type e01State struct {
	f            *e01Filter // nil: no events
	from, surely int64      // when the request was sent, when the response was there
}

type e01Item struct {
	id      uint32
	sub     *e01Sub
	node    int
	mu      sync.Mutex
	states  []e01State
	got     map[string]int
	order   []string
	last    int64 // latest start of the events received
	lastID  string
	per     map[int]int // per raiser: number of the last event
	deleted bool
	ever    int
	op      sync.Mutex // one operation at a time
	mode    ua.MonitoringMode
}

type e01Sub struct {
	id   uint32
	a    *AC
	mute atomic.Bool // nothing is delivered: no publish requests
}

type e01 struct {
	c       *Ctx
	w       *World
	nm      *server.NamespaceManager
	ns      uint16
	r       *rand.Rand
	t0      time.Time
	objs    []*server.ObjectNode
	sub     []bool // subscribable
	parents []map[int]bool
	gone    []bool
	super   map[ua.NodeID]ua.NodeID
	types   []ua.NodeID
	custom  ua.NodeID
	mu      sync.Mutex
	events  map[string]*e01Event
	items   map[uint32]*e01Item // by client handle
	hostile map[uint32]bool
	handle  uint32
	subs    []*e01Sub
	clauses []ua.SimpleAttributeOperand
}

func (x *e01) now() int64 { return int64(time.Since(x.t0)) + 1 }

var e01Std = map[uint32]uint32{2130: 2041, 2131: 2130, 2052: 2041, 2058: 2052, 2059: 2058, 2782: 2041, 2881: 2782, 2915: 2881, 2955: 2915, 9341: 2955}

func (x *e01) above(target int) map[int]bool {
	seen := map[int]bool{target: true}
	q := []int{target}
	for len(q) > 0 {
		t := q[0]
		q = q[1:]
		if t == 0 {
			continue
		}
		for p := range x.parents[t] {
			if !seen[p] && !x.gone[p] {
				seen[p] = true
				q = append(q, p)
			}
		}
	}
	return seen
}

func (x *e01) nodeID(k int) ua.NodeID {
	switch k % 3 {
	case 0:
		return ua.NewNodeIDString(x.ns, fmt.Sprintf("E01.%d", k))
	case 1:
		return ua.NewNodeIDNumeric(x.ns, uint32(70000+k))
	}
	return ua.NewNodeIDOpaque(x.ns, ua.ByteString(fmt.Sprintf("E01-%d", k)))
}

func (x *e01) addObj(refs []ua.Reference, sub bool) int {
	k := len(x.objs)
	var bits byte
	if sub {
		bits = ua.EventNotifierSubscribeToEvents | byte(x.r.Intn(2))<<2
	} else {
		bits = byte(x.r.Intn(2)) << 2
	}
	o := server.NewObjectNode(x.w.Srv, x.nodeID(k), ua.NewQualifiedName(x.ns, fmt.Sprintf("e%d", k)), ua.NewLocalizedText("e", ""), ua.LocalizedText{}, nil, refs, bits)
	x.objs = append(x.objs, o)
	x.sub = append(x.sub, sub)
	x.parents = append(x.parents, map[int]bool{})
	x.gone = append(x.gone, false)
	return k
}

func e01Notifier(inverse bool, id ua.NodeID) ua.Reference {
	return ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasNotifier, IsInverse: inverse, TargetID: ua.NewExpandedNodeID(id)}
}

func (x *e01) build() {
	r := x.r
	srv, ok := x.nm.FindObject(ua.ObjectIDServer)
	if !ok {
		panic("no Server object")
	}
	x.objs, x.sub, x.parents, x.gone = []*server.ObjectNode{srv}, []bool{true}, []map[int]bool{{}}, []bool{false}
	n := 8 + r.Intn(8)
	// parents of every node: mostly a tree, some with several parents, some cycles, some not below the server
	for k := 1; k <= n; k++ {
		refs := []ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}
		k := x.addObj(refs, r.Intn(4) > 0)
		var ps []int
		switch r.Intn(6) {
		case 0:
		case 1:
			ps = []int{0}
		case 2, 3:
			ps = []int{r.Intn(k)}
		case 4:
			ps = []int{r.Intn(k), r.Intn(k)}
		case 5:
			ps = []int{1 + r.Intn(n), r.Intn(k)} // maybe a cycle
		}
		for _, p := range ps {
			if p != k {
				x.parents[k][p] = true
			}
		}
	}
	var batch []server.Node
	for k := 1; k <= n; k++ {
		refs := x.objs[k].References()
		for p := range x.parents[k] {
			id := ua.NodeID(ua.ObjectIDServer)
			if p > 0 {
				id = x.nodeID(p)
			}
			if p == 0 || r.Intn(3) > 0 {
				refs = append(refs, e01Notifier(true, id))
			} else if r.Intn(2) == 0 {
				x.objs[p].SetReferences(append(x.objs[p].References(), e01Notifier(false, x.nodeID(k))))
			} else {
				refs = append(refs, e01Notifier(true, id))
				x.objs[p].SetReferences(append(x.objs[p].References(), e01Notifier(false, x.nodeID(k))))
			}
		}
		if d := 1 + r.Intn(n); d != k && !x.parents[k][d] { // not a notifier
			refs = append(refs, ua.Reference{ReferenceTypeID: pick(r, ua.NodeID(ua.ReferenceTypeIDOrganizes), ua.ReferenceTypeIDHasComponent), IsInverse: r.Intn(2) == 0, TargetID: ua.NewExpandedNodeID(x.nodeID(d))})
		}
		x.objs[k].SetReferences(append([]ua.Reference{}, refs...))
	}
	for k := 1; k <= n; k++ {
		batch = append(batch, x.objs[k])
	}
	must(x.nm.AddNodes(batch...))

	// types
	x.super = map[ua.NodeID]ua.NodeID{}
	for t, s := range e01Std {
		x.super[ua.NewNodeIDNumeric(0, t)] = ua.NewNodeIDNumeric(0, s)
		x.types = append(x.types, ua.NewNodeIDNumeric(0, t))
	}
	x.types = append(x.types, ua.ObjectTypeIDBaseEventType)
	sortNodeIDs(x.types)
	var nodes []server.Node
	m := 10 + r.Intn(12)
	for k := 0; k < m; k++ {
		id := ua.NodeID(ua.NewNodeIDNumeric(x.ns, uint32(60000+k)))
		if k%2 == 1 {
			id = ua.NewNodeIDString(x.ns, fmt.Sprintf("E01.type.%d", k))
		}
		s := x.types[r.Intn(len(x.types))]
		if k > 0 && r.Intn(2) == 0 {
			s = x.types[len(x.types)-1]
		}
		x.super[id] = s
		x.types = append(x.types, id)
		nodes = append(nodes, server.NewObjectTypeNode(x.w.Srv, id, ua.NewQualifiedName(x.ns, fmt.Sprintf("t%d", k)), ua.NewLocalizedText("t", ""), ua.LocalizedText{}, nil,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasSubtype, IsInverse: true, TargetID: ua.NewExpandedNodeID(s)}}, false))
		if k == 0 {
			x.custom = id
		}
	}
	must(x.nm.AddNodes(nodes...))
	x.types = append(x.types, ua.NewNodeIDString(x.ns, "E01.type.absent"))
	x.clauses = append(append([]ua.SimpleAttributeOperand{}, ua.AlarmConditionSelectClauses...), ua.AlarmConditionSelectClauseActiveStateEffectiveDisplayName)
	for _, p := range []string{"Extra", "List", "Nothing", "Arg"} {
		x.clauses = append(x.clauses, ua.SimpleAttributeOperand{TypeDefinitionID: x.custom, BrowsePath: []ua.QualifiedName{{NamespaceIndex: x.ns, Name: p}}, AttributeID: ua.AttributeIDValue})
	}
}

func sortNodeIDs(v []ua.NodeID) {
	for i := range v {
		for j := i; j > 0 && fmt.Sprint(v[j]) < fmt.Sprint(v[j-1]); j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

var e01Names = []string{"alpha", "beta", "gamma", "delta"}
var e01Time = time.Date(2024, 2, 3, 4, 5, 6, 123456700, time.UTC)

// event makes an event and what the model knows about it.
func (x *e01) event(r *rand.Rand, round, raiser, n int) *e01Event {
	e := &e01Event{id: fmt.Sprintf("%d-%d-%d", round, raiser, n), raiser: raiser, n: n}
	typ := x.types[r.Intn(len(x.types))]
	src := ua.NodeID(x.nodeID(r.Intn(20)))
	name := e01Names[r.Intn(len(e01Names))]
	t := e01Time.Add(time.Duration(r.Intn(3)) * 100 * time.Nanosecond)
	rt := e01Time.Add(time.Duration(r.Intn(1e6)) * time.Microsecond)
	msg := ua.LocalizedText{Text: pick(r, "one", "two", "three"), Locale: pick(r, "en", "de", "")}
	sev := uint16(1 + r.Intn(4)*100)
	bs := ua.ByteString(e.id)
	B, C, K, A := ua.NodeID(ua.ObjectTypeIDBaseEventType), ua.NodeID(ua.ObjectTypeIDConditionType), ua.NodeID(ua.ObjectTypeIDAcknowledgeableConditionType), ua.NodeID(ua.ObjectTypeIDAlarmConditionType)
	e.typ = typ
	e.fields = []e01Field{{B, "0:EventId", 13, bs}, {B, "0:EventType", 13, typ}, {B, "0:SourceNode", 13, src}, {B, "0:SourceName", 13, name}, {B, "0:Time", 13, t}, {B, "0:ReceiveTime", 13, rt}, {B, "0:Message", 13, msg}, {B, "0:Severity", 13, sev}}
	base := ua.BaseEvent{EventID: bs, EventType: typ, SourceNode: src, SourceName: name, Time: t, ReceiveTime: rt, Message: msg, Severity: sev}
	kind := r.Intn(5)
	if kind < 3 {
		cid, cn, br, ret := ua.NodeID(x.nodeID(r.Intn(9))), pick(r, "c1", "c2", "c3"), ua.NodeID(x.nodeID(r.Intn(5))), r.Intn(2) == 0
		ack, conf, act := r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		e.fields = append(e.fields, e01Field{C, "", 1, cid}, e01Field{C, "0:ConditionName", 13, cn}, e01Field{C, "0:BranchId", 13, br}, e01Field{C, "0:Retain", 13, ret})
		switch kind {
		case 0:
			e.kind = "condition"
			e.real = &ua.Condition{EventID: bs, EventType: typ, SourceNode: src, SourceName: name, Time: t, ReceiveTime: rt, Message: msg, Severity: sev, ConditionID: cid, ConditionName: cn, BranchID: br, Retain: ret}
			return e
		case 1:
			e.kind = "acknowledgeable"
			e.real = &ua.AcknowledgeableCondition{EventID: bs, EventType: typ, SourceNode: src, SourceName: name, Time: t, ReceiveTime: rt, Message: msg, Severity: sev, ConditionID: cid, ConditionName: cn, BranchID: br, Retain: ret, AckedState: ack, ConfirmedState: conf}
		case 2:
			e.kind = "alarm"
			e.real = &ua.AlarmCondition{EventID: bs, EventType: typ, SourceNode: src, SourceName: name, Time: t, ReceiveTime: rt, Message: msg, Severity: sev, ConditionID: cid, ConditionName: cn, BranchID: br, Retain: ret, AckedState: ack, ConfirmedState: conf, ActiveState: act}
			e.fields = append(e.fields, e01Field{A, "0:ActiveState/0:Id", 13, act})
			txt := "Inactive"
			if act {
				txt = "Active"
			}
			e.fields = append(e.fields, e01Field{A, "0:ActiveState/0:EffectiveDisplayName", 13, ua.LocalizedText{Locale: "en", Text: txt}})
		}
		e.fields = append(e.fields, e01Field{K, "0:AckedState/0:Id", 13, ack}, e01Field{K, "0:ConfirmedState/0:Id", 13, conf})
		return e
	}
	if kind == 3 {
		e.kind = "base"
		e.real = &base
		return e
	}
	e.kind = "custom"
	p := func(s string) string { return fmt.Sprintf("%d:%s", x.ns, s) }
	extra := []e01Field{{x.custom, p("Extra"), 13, int64(r.Intn(3))}, {x.custom, p("List"), 13, pick(r, []string{"a", "b"}, []string{"a"}, []string{"b", "a"})}, {x.custom, p("Nothing"), 13, nil},
		{x.custom, p("Arg"), 13, ua.Argument{Name: "x", DataType: ua.DataTypeIDDouble, ValueRank: -1, ArrayDimensions: []uint32{}, Description: ua.LocalizedText{Text: "d"}}}}
	e.fields = append(e.fields, extra...)
	e.real = &e01Custom{base, x.custom, extra}
	return e
}

// clause gives something to select, or to compare.
func (x *e01) clause(r *rand.Rand) ua.SimpleAttributeOperand {
	c := x.clauses[r.Intn(len(x.clauses))]
	if r.Intn(3) == 0 {
		c = x.clauses[r.Intn(8)]
	}
	switch r.Intn(14) {
	case 0:
		if len(c.BrowsePath) > 0 {
			c.TypeDefinitionID = ua.ObjectTypeIDBaseEventType
		}
	case 1: // no such field
		c.BrowsePath = ua.ParseBrowsePath(pick(r, "Nope", "EventID", "1:EventId", "EventId/EventId", "ActiveState", "ActiveState/Id/Id"))
	case 2: // not this attribute
		c.AttributeID = pick(r, uint32(ua.AttributeIDDisplayName), ua.AttributeIDBrowseName, 0, 99)
	case 3: // a type that has no such field
		c.TypeDefinitionID = pick(r, ua.NodeID(ua.ObjectTypeIDFolderType), ua.NodeID(ua.NewNodeIDNumeric(x.ns, 1)))
	}
	return c
}

func (x *e01) literal(r *rand.Rand, e *e01Event) ua.Variant {
	switch r.Intn(12) {
	case 0:
		return pick[ua.Variant](r, int32(101), "absent", false, true, uint16(7), e01Time, ua.NodeID(x.nodeID(3)))
	}
	f := e.fields[1+r.Intn(len(e.fields)-1)]
	return f.val
}

func (x *e01) where(r *rand.Rand) (els []ua.ContentFilterElement, what string) {
	ofType := func() ua.ContentFilterElement {
		return ua.ContentFilterElement{FilterOperator: ua.FilterOperatorOfType, FilterOperands: []ua.ExtensionObject{ua.LiteralOperand{Value: x.types[r.Intn(len(x.types))]}}}
	}
	equal := func(a, b ua.ExtensionObject) ua.ContentFilterElement {
		if r.Intn(3) == 0 {
			a, b = b, a
		}
		return ua.ContentFilterElement{FilterOperator: ua.FilterOperatorEquals, FilterOperands: []ua.ExtensionObject{a, b}}
	}
	leaf := func() ua.ContentFilterElement {
		switch r.Intn(6) {
		case 0, 1:
			return ofType()
		case 2:
			return equal(x.clause(r), x.clause(r))
		case 3:
			return equal(ua.LiteralOperand{Value: uint16(1 + r.Intn(4)*100)}, x.clauses[7])
		}
		e := x.event(r, 0, 0, 0)
		for {
			f := e.fields[1+r.Intn(len(e.fields)-1)]
			for _, c := range x.clauses {
				if e.attrOf(&c) != nil && c.TypeDefinitionID == f.decl && r.Intn(4) == 0 {
					if e01Same(e.attrOf(&c), f.val) {
						return equal(c, ua.LiteralOperand{Value: f.val})
					} else if r.Intn(10) == 0 {
						return equal(c, ua.LiteralOperand{Value: x.literal(r, e)})
					}
				}
			}
		}
	}
	switch r.Intn(8) {
	case 0, 1:
		return nil, "all"
	case 2, 3:
		return []ua.ContentFilterElement{leaf()}, "leaf"
	case 4: // not, equivalent, over several elements
		return []ua.ContentFilterElement{equal(ua.ElementOperand{Index: 1}, ua.LiteralOperand{Value: r.Intn(2) == 0}), leaf()}, "not"
	case 5:
		els := []ua.ContentFilterElement{equal(ua.ElementOperand{Index: 1}, ua.ElementOperand{Index: 2}), leaf(), leaf()}
		if r.Intn(2) == 0 { // an element nobody refers to
			els = append(els, leaf())
		}
		return els, "equivalent"
	case 6: // any nesting
		n := 3 + r.Intn(8)
		for i := 0; i < n; i++ {
			if i == n-1 || i > 0 && r.Intn(3) == 0 {
				els = append(els, leaf())
				continue
			}
			ref := func() ua.ExtensionObject { return ua.ElementOperand{Index: uint32(i + 1 + r.Intn(n-i-1))} }
			switch r.Intn(3) {
			case 0:
				els = append(els, equal(ref(), ref()))
			case 1:
				els = append(els, equal(ref(), ua.LiteralOperand{Value: r.Intn(2) == 0}))
			case 2:
				els = append(els, equal(ref(), x.clauses[pick(r, 11, 12, 13, 14)]))
			}
		}
		return els, "nested"
	}
	// elements that refer to the next one twice
	n := pick(r, 5, 20, 40, 60, 2000)
	for i := 0; i < n-1; i++ {
		els = append(els, ua.ContentFilterElement{FilterOperator: ua.FilterOperatorEquals, FilterOperands: []ua.ExtensionObject{ua.ElementOperand{Index: uint32(i + 1)}, ua.ElementOperand{Index: uint32(i + 1 + r.Intn(2)*r.Intn(min(2, n-i-1)))}}})
	}
	return append(els, ofType()), fmt.Sprintf("deep%d", n)
}

func (x *e01) filter(r *rand.Rand) *e01Filter {
	f := &e01Filter{}
	switch r.Intn(5) {
	case 0:
		f.SelectClauses = pick(r, ua.BaseEventSelectClauses, ua.ConditionSelectClauses, ua.AcknowledgeableConditionSelectClauses, ua.AlarmConditionSelectClauses)
	default:
		n := r.Intn(9)
		f.id = r.Intn(n + 1)
		for i := 0; i <= n; i++ {
			if i == f.id {
				f.SelectClauses = append(f.SelectClauses, ua.BaseEventSelectClauses[0])
			} else {
				f.SelectClauses = append(f.SelectClauses, x.clause(r))
			}
		}
	}
	f.WhereClause.Elements, f.what = x.where(r)
	return f
}

// bad gives a filter that is malformed or not supported; it may select any events.
func (x *e01) bad(r *rand.Rand) any {
	el := func(op ua.FilterOperator, o ...ua.ExtensionObject) ua.ContentFilterElement {
		return ua.ContentFilterElement{FilterOperator: op, FilterOperands: o}
	}
	lit := ua.LiteralOperand{Value: true}
	e := func(k uint32) ua.ElementOperand { return ua.ElementOperand{Index: k} }
	w := pick(r,
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorOfType)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorOfType, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorOfType, ua.LiteralOperand{})},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, e(0), lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, e(1), lit), el(ua.FilterOperatorEquals, e(0), lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, e(1), e(4294967295))},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, e(2147483648), lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorNot, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorAnd, lit, lit), el(ua.FilterOperatorOr)},
		[]ua.ContentFilterElement{el(ua.FilterOperator(r.Intn(1000)), lit, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorInList, x.clauses[0], lit, lit, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, ua.AttributeOperand{NodeID: ua.ObjectIDServer, AttributeID: 13}, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, nil, nil)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, ua.Argument{Name: "not an operand"}, lit)},
		[]ua.ContentFilterElement{el(ua.FilterOperatorEquals, ua.SimpleAttributeOperand{}, ua.SimpleAttributeOperand{IndexRange: "9:1"})},
	)
	s := pick(r, nil, ua.BaseEventSelectClauses, []ua.SimpleAttributeOperand{{}}, []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("EventId"), AttributeID: 13, IndexRange: "x"}})
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return ua.DataChangeFilter{}
	}
	return ua.EventFilter{SelectClauses: s, WhereClause: ua.ContentFilter{Elements: w}}
}

func (x *e01) newHandle(it *e01Item) uint32 {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.handle++
	if it == nil {
		x.hostile[x.handle] = true
	} else {
		x.items[x.handle] = it
	}
	return x.handle
}

func (x *e01) objID(node int) ua.NodeID {
	if node == 0 {
		return ua.ObjectIDServer
	}
	return x.nodeID(node)
}

func eventItem(id ua.NodeID, h uint32, q uint32, mode ua.MonitoringMode, f any) ua.MonitoredItemCreateRequest {
	return ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: mode,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: h, QueueSize: q, DiscardOldest: true, Filter: f}}
}

func (x *e01) create(r *rand.Rand, s *e01Sub) *e01Item {
	f := x.filter(r)
	it := &e01Item{sub: s, node: r.Intn(len(x.objs)), got: map[string]int{}, per: map[int]int{}, mode: ua.MonitoringModeReporting}
	if r.Intn(5) == 0 {
		it.node = 0
	}
	if x.gone[it.node] {
		it.node = 0
	}
	fs := f
	if r.Intn(8) == 0 {
		it.mode = ua.MonitoringModeDisabled
		fs = nil
	}
	h := x.newHandle(it)
	it.states = []e01State{{nil, 0, 0}, {fs, x.now(), 1 << 62}}
	it.op.Lock()
	defer it.op.Unlock()
	res, err := s.a.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: s.id, TimestampsToReturn: pick(r, ua.TimestampsToReturnNeither, ua.TimestampsToReturnBoth), ItemsToCreate: []ua.MonitoredItemCreateRequest{eventItem(x.objID(it.node), h, pick(r, uint32(0), 1, 1000, 4294967295), it.mode, f.EventFilter)}})
	now := x.now()
	if err != nil {
		x.c.Violate("create", "creating an event item: %v", err)
		return nil
	}
	c := res.(*ua.CreateMonitoredItemsResponse).Results[0]
	it.mu.Lock()
	defer it.mu.Unlock()
	if !x.sub[it.node] {
		if c.StatusCode != ua.BadNotReadable && c.StatusCode.IsGood() {
			x.c.Violate("not-notifier", "an event item is created on a node that is not subscribable")
		}
		it.deleted = true
		it.states = []e01State{{nil, 0, 0}}
		return it
	}
	if c.StatusCode != ua.Good {
		x.c.Violate("create/"+f.what, "creating an event item with a supported filter (%s): %v", f.what, c.StatusCode)
		return nil
	}
	it.id = c.MonitoredItemID
	it.states[1].surely = now
	x.c.Eval("filter/" + f.what)
	return it
}

// change does something to an item.
func (x *e01) change(r *rand.Rand, it *e01Item) {
	it.op.Lock()
	defer it.op.Unlock()
	if it.deleted {
		return
	}
	begin := func(f *e01Filter) {
		it.mu.Lock()
		it.states = append(it.states, e01State{f, x.now(), 1 << 62})
		it.mu.Unlock()
	}
	finish := func() {
		it.mu.Lock()
		it.states[len(it.states)-1].surely = x.now()
		it.mu.Unlock()
	}
	var cur *e01Filter
	for i := len(it.states) - 1; i >= 0 && cur == nil; i-- {
		cur = it.states[i].f
	}
	switch op := r.Intn(5); {
	case op < 2 || cur == nil: // another filter
		f := x.filter(r)
		fs := f
		if it.mode == ua.MonitoringModeDisabled {
			fs = nil
		}
		h := x.newHandle(it)
		begin(fs)
		res, err := it.sub.a.Do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: it.sub.id, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: it.id, RequestedParameters: ua.MonitoringParameters{ClientHandle: h, QueueSize: 10, DiscardOldest: r.Intn(2) == 0, Filter: f.EventFilter}}}})
		finish()
		if err != nil || res.(*ua.ModifyMonitoredItemsResponse).Results[0].StatusCode != ua.Good {
			x.c.Violate("modify/"+f.what, "modifying an event item with a supported filter: %v %v", err, res)
		}
		if it.mode == ua.MonitoringModeDisabled { // known again
			begin(f)
			it.mode = ua.MonitoringModeReporting
			_, err := it.sub.a.Do(&ua.SetMonitoringModeRequest{SubscriptionID: it.sub.id, MonitoringMode: it.mode, MonitoredItemIDs: []uint32{it.id}})
			finish()
			if err != nil {
				x.c.Violate("mode", "%v", err)
			}
		}
		x.c.Eval("modify")
	case op < 4: // other mode
		if it.mode == ua.MonitoringModeDisabled {
			it.mode = ua.MonitoringModeReporting
			begin(cur)
		} else {
			it.mode = ua.MonitoringModeDisabled
			begin(nil)
		}
		_, err := it.sub.a.Do(&ua.SetMonitoringModeRequest{SubscriptionID: it.sub.id, MonitoringMode: it.mode, MonitoredItemIDs: []uint32{it.id}})
		finish()
		if err != nil {
			x.c.Violate("mode", "%v", err)
		}
		x.c.Eval(fmt.Sprintf("mode/%d", it.mode))
	default:
		it.deleted = true
		begin(nil)
		_, err := it.sub.a.Do(&ua.DeleteMonitoredItemsRequest{SubscriptionID: it.sub.id, MonitoredItemIDs: []uint32{it.id}})
		finish()
		if err != nil {
			x.c.Violate("delete", "%v", err)
		}
		x.c.Eval("delete")
	}
}

// received judges one notification.
func (x *e01) received(l ua.EventFieldList) {
	x.mu.Lock()
	it, bad := x.items[l.ClientHandle], x.hostile[l.ClientHandle]
	x.mu.Unlock()
	if bad {
		x.c.Count("hostile_notifications", 1)
		return
	}
	if it == nil {
		x.c.Violate("handle", "a notification with client handle %d, which no item has", l.ClientHandle)
		return
	}
	it.mu.Lock()
	defer it.mu.Unlock()
	// find the event
	var e *e01Event
	why := ""
	ok := false
	for i := range it.states {
		st := it.states[i]
		if st.f == nil {
			continue
		}
		if len(l.EventFields) != len(st.f.SelectClauses) {
			why += fmt.Sprintf("state %d selects %d fields; ", i, len(st.f.SelectClauses))
			continue
		}
		id, _ := l.EventFields[st.f.id].(ua.ByteString)
		x.mu.Lock()
		ev := x.events[string(id)]
		x.mu.Unlock()
		if ev == nil {
			why += fmt.Sprintf("state %d: no event %q; ", i, id)
			continue
		}
		e = ev
		// in force while the event was raised?
		next := int64(1 << 62)
		if i+1 < len(it.states) {
			next = it.states[i+1].surely
		}
		end := atomic.LoadInt64(&ev.end)
		if end == 0 {
			end = 1 << 62
		}
		if end < st.from || ev.start > next {
			why += fmt.Sprintf("state %d was not in force; ", i)
			continue
		}
		if !ev.at[it.node] {
			why += "raised elsewhere; "
			continue
		}
		if v := x.eval(st.f, ev); !v.free && v.v != true {
			why += fmt.Sprintf("where clause of state %d (%s) is %v; ", i, st.f.what, v.v)
			continue
		}
		same := true
		for k, c := range st.f.SelectClauses {
			if w := ev.attrOf(&c); !e01Same(w, l.EventFields[k]) {
				why += fmt.Sprintf("state %d: field %d (%v) is %T %v, expected %T %v; ", i, k, c, l.EventFields[k], l.EventFields[k], w, w)
				same = false
				break
			}
		}
		if same {
			ok = true
			x.unmarshal(ev, st.f, l.EventFields)
			break
		}
	}
	if !ok {
		x.c.Violate("unexpected", "item %d on node %d got %.300s: %s", it.id, it.node, fmt.Sprint(l.EventFields), why)
		return
	}
	it.got[e.id]++
	it.ever++
	if it.got[e.id] > 1 {
		x.c.Violate("twice", "item %d on node %d got event %s of node %d %d times", it.id, it.node, e.id, e.target, it.got[e.id])
	}
	if n, ok := it.per[e.raiser]; ok && n >= e.n {
		x.c.Violate("order", "item %d got event %d of raiser %d after its event %d", it.id, e.n, e.raiser, n)
	}
	it.per[e.raiser] = e.n
	if end := atomic.LoadInt64(&e.end); end != 0 && end < it.last {
		x.c.Violate("order", "item %d got event %s, whose raising ended before that of %s began, after it", it.id, e.id, it.lastID)
	}
	if e.start > it.last {
		it.last, it.lastID = e.start, e.id
	}
	x.c.Eval(fmt.Sprintf("event/%s/%v/%d", e.kind, e.target == it.node, len(l.EventFields)))
}

// unmarshal reads the standard fields back into the event structures.
func (x *e01) unmarshal(e *e01Event, f *e01Filter, v []ua.Variant) {
	var got, want any
	var err error
	switch w := e.real.(type) {
	case *ua.BaseEvent:
		if len(v) != 8 || &f.SelectClauses[0] != &ua.BaseEventSelectClauses[0] {
			return
		}
		var g ua.BaseEvent
		err = g.UnmarshalFields(v)
		g.Time, g.ReceiveTime = g.Time.UTC(), g.ReceiveTime.UTC()
		got, want = g, *w
	case *ua.Condition:
		if len(v) != 12 || &f.SelectClauses[0] != &ua.ConditionSelectClauses[0] {
			return
		}
		var g ua.Condition
		err = g.UnmarshalFields(v)
		g.Time, g.ReceiveTime = g.Time.UTC(), g.ReceiveTime.UTC()
		got, want = g, *w
	case *ua.AcknowledgeableCondition:
		if len(v) != len(ua.AcknowledgeableConditionSelectClauses) || &f.SelectClauses[0] != &ua.AcknowledgeableConditionSelectClauses[0] {
			return
		}
		var g ua.AcknowledgeableCondition
		err = g.UnmarshalFields(v)
		g.Time, g.ReceiveTime = g.Time.UTC(), g.ReceiveTime.UTC()
		got, want = g, *w
	case *ua.AlarmCondition:
		if len(v) != 15 || &f.SelectClauses[0] != &ua.AlarmConditionSelectClauses[0] {
			return
		}
		var g ua.AlarmCondition
		err = g.UnmarshalFields(v)
		g.Time, g.ReceiveTime = g.Time.UTC(), g.ReceiveTime.UTC()
		got, want = g, *w
	default:
		return
	}
	x.c.Eval("unmarshal/" + e.kind)
	if err != nil || !reflect.DeepEqual(got, want) {
		x.c.Violate("unmarshal/"+e.kind, "the fields of an event give %+v, expected %+v (%v)", got, want, err)
	}
}

// raise raises an event, through f.
func (x *e01) raise(e *e01Event, f func()) bool {
	x.mu.Lock()
	e.start = x.now()
	x.events[e.id] = e
	x.mu.Unlock()
	if !within(45*time.Second, f) {
		x.c.Violate("stuck", "raising an event does not return")
		return false
	}
	atomic.StoreInt64(&e.end, x.now())
	return true
}

// missing gives the events the item must have got and has not.
func (x *e01) missing(it *e01Item) (miss []string, must int) {
	it.mu.Lock()
	defer it.mu.Unlock()
	st := it.states[len(it.states)-1]
	if st.f == nil || it.sub.mute.Load() {
		return
	}
	for _, e := range x.events {
		if e.start < st.surely || !e.at[it.node] {
			continue
		}
		if v := x.eval(st.f, e); v.free || v.v != true {
			continue
		}
		must++
		if it.got[e.id] == 0 {
			miss = append(miss, e.id)
		}
	}
	return
}

func runE01(c *Ctx) {
	for k := 0; k < c.N(4, 24) && !c.Violated(); k++ {
		x := &e01{c: c, r: c.Rng(fmt.Sprintf("world%d", k)), t0: time.Now(), events: map[string]*e01Event{}, items: map[uint32]*e01Item{}, hostile: map[uint32]bool{}, handle: 1000}
		x.run()
	}
}

func (x *e01) run() {
	c, r := x.c, x.r
	w := newWorld(c, WorldOpts{Opts: []server.Option{bigCaps(), server.WithServerDiagnostics(r.Intn(2) == 0)}})
	x.w, x.ns, x.nm = w, w.ensureNS(), w.Srv.NamespaceManager()
	defer func() { go w.Srv.Close() }()
	x.build()
	// a method that raises
	type call struct {
		target *server.ObjectNode
		e      *e01Event
	}
	var calls sync.Map
	m := server.NewMethodNode(w.Srv, ua.NewNodeIDString(x.ns, "raise"), ua.NewQualifiedName(x.ns, "raise"), ua.NewLocalizedText("raise", ""), ua.LocalizedText{}, nil, []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDServer)}}, true)
	m.SetCallMethodHandler(func(_ *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
		if len(q.InputArguments) == 1 {
			if v, ok := calls.Load(q.InputArguments[0]); ok {
				x.nm.OnEvent(v.(call).target, v.(call).e.real)
				return ua.CallMethodResult{}
			}
		}
		return ua.CallMethodResult{StatusCode: ua.BadArgumentsMissing}
	})
	must(x.nm.AddNode(m))
	// clients
	var acs []*AC
	var pubs []*Publisher
	for k := 0; k < 3; k++ {
		a := w.AC()
		acs = append(acs, a)
		defer a.Close()
		for s := 0; s < 2; s++ {
			res := a.createSub(125, 10000, 100, 0, true, byte(r.Intn(3)))
			x.subs = append(x.subs, &e01Sub{id: res.SubscriptionID, a: a})
		}
		p := newPublisher(a, 6)
		p.on = func(m pubMsg) {
			for _, l := range eventsOf(m) {
				x.received(l)
			}
			for _, d := range m.resp.NotificationMessage.NotificationData {
				if _, ok := d.(ua.StatusChangeNotification); ok {
					c.Violate("status-change", "a subscription ended")
				}
			}
		}
		p.pump()
		pubs = append(pubs, p)
		defer p.Stop()
	}
	// a client that never asks for its notifications
	lazy := w.AC()
	defer lazy.Close()
	ls := &e01Sub{id: lazy.createSub(125, 10000, 100, 0, true, 255).SubscriptionID, a: lazy}
	ls.mute.Store(true)
	var items []*e01Item
	for k := 0; k < 30 && !c.Violated(); k++ {
		if it := x.create(r, x.subs[r.Intn(len(x.subs))]); it != nil {
			items = append(items, it)
		}
	}
	for k := 0; k < 4; k++ {
		x.create(r, ls)
	}
	stable := len(items)
	hostile := func(r *rand.Rand, s *e01Sub) {
		h := x.newHandle(nil)
		res, err := s.a.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: s.id, ItemsToCreate: []ua.MonitoredItemCreateRequest{eventItem(x.objID(pick(r, 0, 1, 2, 3)), h, 10, ua.MonitoringModeReporting, x.bad(r))}})
		c.Eval("hostile")
		if err != nil {
			return
		}
		cr := res.(*ua.CreateMonitoredItemsResponse).Results[0]
		if cr.StatusCode != ua.Good {
			return
		}
		if r.Intn(3) == 0 {
			s.a.Do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: s.id, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: cr.MonitoredItemID, RequestedParameters: ua.MonitoringParameters{ClientHandle: h, Filter: x.bad(r)}}}})
		}
		if r.Intn(2) == 0 {
			s.a.Do(&ua.DeleteMonitoredItemsRequest{SubscriptionID: s.id, MonitoredItemIDs: []uint32{cr.MonitoredItemID}})
		}
	}
	for round := 0; round < c.N(5, 12) && !c.Violated(); round++ {
		// between rounds: the hierarchy changes
		if round > 0 {
			var idle []int
			used := map[int]bool{}
			for _, it := range items {
				used[it.node] = true
			}
			for k := 1; k < len(x.objs); k++ {
				if !used[k] && !x.gone[k] {
					idle = append(idle, k)
				}
			}
			if len(idle) > 3 && r.Intn(2) == 0 {
				k := idle[r.Intn(len(idle))]
				must(x.nm.DeleteNode(x.objs[k], false))
				x.gone[k] = true
				c.Eval("node-deleted")
			}
			if r.Intn(2) == 0 {
				k := x.addObj([]ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}, true)
				for n := 0; n < 3; n++ {
					p := r.Intn(k)
					if x.gone[p] {
						continue
					}
					if n == 0 || p == 0 { // above
						x.parents[k][p] = true
						x.objs[k].SetReferences(append(x.objs[k].References(), e01Notifier(true, x.objID(p))))
					} else if !x.parents[k][p] && !x.parents[p][k] { // below
						x.parents[p][k] = true
						x.objs[k].SetReferences(append(x.objs[k].References(), e01Notifier(false, x.objID(p))))
					}
				}
				must(x.nm.AddNode(x.objs[k]))
				c.Eval("node-added")
			}
		}
		var live []int
		for k := range x.objs {
			if !x.gone[k] {
				live = append(live, k)
			}
		}
		above := map[int]map[int]bool{}
		for _, k := range live {
			above[k] = x.above(k)
			c.Eval(fmt.Sprintf("above/%d", len(above[k])))
		}
		var wg sync.WaitGroup
		var stop atomic.Bool
		slow := r.Intn(2) == 0
		for g := 0; g < 6; g++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 50 && !c.Violated(); n++ {
					e := x.event(rr, round, g, round*1000+n)
					e.target = live[rr.Intn(len(live))]
					e.at = above[e.target]
					target := x.objs[e.target]
					if g == 0 {
						calls.Store(e.id, call{target, e})
						if !x.raise(e, func() {
							res, err := acs[n%3].Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.NewNodeIDString(x.ns, "raise"), InputArguments: []ua.Variant{e.id}}}})
							if err != nil || res.(*ua.CallResponse).Results[0].StatusCode != ua.Good {
								c.Violate("call", "a method that raises an event: %v", err)
							}
						}) {
							return
						}
					} else if !x.raise(e, func() {
						if err := x.nm.OnEvent(target, e.real); err != nil {
							c.Violate("onevent", "raising an event: %v", err)
						}
					}) {
						return
					}
					c.Count("raised", 1)
					if slow {
						time.Sleep(time.Duration(rr.Intn(8)) * time.Millisecond)
					} else if rr.Intn(8) == 0 {
						time.Sleep(time.Duration(rr.Intn(4)) * time.Millisecond)
					}
				}
			}()
		}
		var cg sync.WaitGroup
		var imu sync.Mutex
		for g := 0; g < 3; g++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			cg.Add(1)
			go func() {
				defer cg.Done()
				for n := 0; n < 25 && !stop.Load() && !c.Violated(); n++ {
					switch rr.Intn(6) {
					case 0:
						hostile(rr, pick(rr, append([]*e01Sub{ls}, x.subs...)...))
					case 1, 2:
						imu.Lock()
						many := len(items) > stable+40
						imu.Unlock()
						if many {
							continue
						}
						if it := x.create(rr, x.subs[rr.Intn(len(x.subs))]); it != nil {
							imu.Lock()
							items = append(items, it)
							imu.Unlock()
						}
					default:
						imu.Lock()
						var it *e01Item
						if len(items) > stable {
							it = items[stable+rr.Intn(len(items)-stable)]
						}
						imu.Unlock()
						if it != nil {
							x.change(rr, it)
						}
					}
				}
			}()
		}
		cg.Add(1)
		go func() { // the address space changes elsewhere
			defer cg.Done()
			for n := 0; !stop.Load(); n++ {
				id := ua.NewNodeIDString(x.ns, fmt.Sprintf("E01.other.%d.%d", round, n))
				o := server.NewObjectNode(w.Srv, id, ua.NewQualifiedName(x.ns, "other"), ua.NewLocalizedText("o", ""), ua.LocalizedText{}, nil, []ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType), e01Notifier(true, ua.ObjectIDServer)}, 1)
				must(x.nm.AddNode(o))
				time.Sleep(5 * time.Millisecond)
				must(x.nm.DeleteNode(o, true))
			}
		}()
		wg.Wait()
		stop.Store(true)
		if !within(70*time.Second, cg.Wait) {
			c.Violate("stuck", "requests about event items get no answer")
			return
		}
		if c.Violated() {
			return
		}
		// everything arrives
		t := time.Now()
		for _, it := range items {
			for {
				miss, n := x.missing(it)
				c.Count("expected", n)
				if len(miss) == 0 {
					break
				}
				if time.Since(t) > 30*time.Second {
					st := it.states[len(it.states)-1]
					e := x.events[miss[0]]
					c.Violate("missing", "item %d on node %d (filter %s, state %d) did not get %d events, such as %s (%s of type %v) raised on node %d, below %v", it.id, it.node, st.f.what, len(it.states), len(miss), e.id, e.kind, e.typ, e.target, e.at)
					return
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		c.Sample("round", fmt.Sprintf("%d items (%d steady), %d nodes, %d events", len(items), stable, len(live), len(x.events)))
		// the log is not needed any more once late repetitions would have shown
		time.Sleep(300 * time.Millisecond)
	}
}
