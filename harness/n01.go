package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("N01", &check{run: runN01, minEvals: 2000, minDistinct: 500,
		rule:        "after every add/delete call the whole modelled part of the address space (existence, exact reference lists, lookups, subtype sets) is compared with a graph model; concurrent phases are audited while they run and at the end",
		assumptions: []string{"each added node is a new object whose id is not in the address space", "type-definition and modelling-rule references are one-way"}})
}

// n01Model is the expected address space: references by node.
type n01Model struct {
	refs  map[ua.NodeID]map[gEdge]bool
	nodes map[ua.NodeID]server.Node
	class map[ua.NodeID]ua.NodeClass
	name  map[ua.NodeID]ua.QualifiedName
	order []ua.NodeID
}

func oneWay(rt ua.NodeID) bool {
	return rt == ua.ReferenceTypeIDHasTypeDefinition || rt == ua.ReferenceTypeIDHasModellingRule
}

var n01Child = map[ua.NodeID]bool{ua.ReferenceTypeIDHasComponent: true, ua.ReferenceTypeIDHasProperty: true, ua.ReferenceTypeIDHasSubtype: true, ua.ReferenceTypeIDHasOrderedComponent: true}

func (m *n01Model) link() {
	for x, es := range m.refs {
		for e := range es {
			if oneWay(e.rt) {
				continue
			}
			if t, ok := m.refs[e.target]; ok {
				t[gEdge{e.rt, !e.inverse, x}] = true
			}
		}
	}
}

func (m *n01Model) del(id ua.NodeID) {
	for e := range m.refs[id] {
		if oneWay(e.rt) {
			continue
		}
		if t, ok := m.refs[e.target]; ok {
			delete(t, gEdge{e.rt, !e.inverse, id})
		}
	}
	delete(m.refs, id)
	delete(m.nodes, id)
	for i, x := range m.order {
		if x == id {
			m.order = append(m.order[:i], m.order[i+1:]...)
			break
		}
	}
}

func (m *n01Model) children(id ua.NodeID, types map[ua.NodeID]bool) map[ua.NodeID]bool {
	seen := map[ua.NodeID]bool{id: true}
	q := []ua.NodeID{id}
	for i := 0; i < len(q); i++ {
		for e := range m.refs[q[i]] {
			if !e.inverse && types[e.rt] && !seen[e.target] {
				if _, ok := m.refs[e.target]; ok {
					seen[e.target] = true
					q = append(q, e.target)
				}
			}
		}
	}
	delete(seen, id)
	return seen
}

func n01Edges(n server.Node, uris []string) (map[gEdge]int, bool) {
	out := map[gEdge]int{}
	for _, r := range n.References() {
		out[gEdge{r.ReferenceTypeID, r.IsInverse, ua.ToNodeID(r.TargetID, uris)}]++
	}
	return out, true
}

// n01NewNode makes a node of a class.
func n01NewNode(w *World, class ua.NodeClass, id ua.NodeID, name ua.QualifiedName, refs []ua.Reference) server.Node {
	if class == ua.NodeClassReferenceType {
		return server.NewReferenceTypeNode(w.Srv, id, name, ua.NewLocalizedText(name.Name, ""), ua.LocalizedText{}, nil, refs, false, false, ua.LocalizedText{})
	}
	g := &graph{}
	return g.make(w, &gNode{class: class, id: id, name: name, display: ua.NewLocalizedText(name.Name, "")}, refs)
}

var n01Classes = []ua.NodeClass{ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassView, ua.NodeClassObjectType, ua.NodeClassVariableType, ua.NodeClassDataType, ua.NodeClassReferenceType}

func runN01(c *Ctx) {
	r := c.Rng("n01")
	w := newWorld(c, WorldOpts{})
	defer w.Srv.Close()
	s, err := w.RawSession(raw.None, raw.ModeNone)
	if err != nil {
		c.Inconclusive("session: %v", err)
		return
	}
	defer s.Close()
	for k := 0; k < c.N(3, 30) && !c.Violated(); k++ {
		n01Sequential(c, w, s, r, k, c.N(450, 1500))
	}
	for k := 0; k < c.N(3, 30) && !c.Violated(); k++ {
		n01Concurrent(c, w, r, k)
	}
}

func n01Target(r *rand.Rand, w *World, id ua.NodeID) ua.ExpandedNodeID {
	x := ua.NewExpandedNodeID(id)
	if r.Intn(4) == 0 {
		uris := w.Srv.NamespaceManager().NamespaceUris()
		if ns := nodeNS(id); ns > 1 && int(ns) < len(uris) {
			x = ua.ExpandedNodeID{NamespaceURI: uris[ns], NodeID: withNS(id, 0)}
		}
	}
	return x
}

func n01Sequential(c *Ctx, w *World, s *raw.Client, r *rand.Rand, run, steps int) {
	nm := w.Srv.NamespaceManager()
	nsA, nsB := w.ensureNS(), nm.Add("urn:verif:n01;=%")
	uris := nm.NamespaceUris()
	m := &n01Model{refs: map[ua.NodeID]map[gEdge]bool{}, nodes: map[ua.NodeID]server.Node{}, class: map[ua.NodeID]ua.NodeClass{}, name: map[ua.NodeID]ua.QualifiedName{}}
	// standard nodes that take part
	std := []ua.NodeID{ua.ObjectIDObjectsFolder, ua.ObjectIDServer, ua.ObjectIDTypesFolder, ua.ObjectTypeIDBaseObjectType, ua.VariableIDServerServiceLevel, ua.VariableIDServerServerStatusState, ua.DataTypeIDDouble}
	leafs := []ua.NodeID{ua.VariableIDServerServiceLevel, ua.VariableIDServerServerStatusState}
	for _, id := range std {
		n, ok := nm.FindNode(id)
		if !ok {
			c.Inconclusive("standard node %v missing", id)
			return
		}
		es := map[gEdge]bool{}
		cnt, _ := n01Edges(n, uris)
		for e := range cnt {
			es[e] = true
		}
		m.refs[id] = es
		m.nodes[id] = n
	}
	stdOf := func(id ua.NodeID) bool { return nodeNS(id) == 0 }
	rtypes := []ua.NodeID{ua.ReferenceTypeIDOrganizes, ua.ReferenceTypeIDHasComponent, ua.ReferenceTypeIDHasComponent, ua.ReferenceTypeIDHasProperty, ua.ReferenceTypeIDHasOrderedComponent, ua.ReferenceTypeIDHasSubtype, ua.ReferenceTypeIDHasEventSource, ua.ReferenceTypeIDHasNotifier, ua.ReferenceTypeIDGeneratesEvent}
	var dead []ua.NodeID
	next := 0
	names := []string{"p", "q", "r"}
	newNode := func(pool []ua.NodeID) (ua.NodeID, func() server.Node) {
		ns := []uint16{nsA, nsB}[r.Intn(2)]
		next++
		id := randNodeID(r, ns, run*100000+next)
		if len(dead) > 0 && r.Intn(3) == 0 { // an id is used again
			id = dead[r.Intn(len(dead))]
			if _, ok := m.refs[id]; ok {
				return nil, nil
			}
		}
		for _, p := range pool {
			if p == id {
				return nil, nil
			}
		}
		class := n01Classes[r.Intn(len(n01Classes))]
		name := ua.NewQualifiedName(nsA, names[r.Intn(len(names))])
		return id, func() server.Node {
			m.class[id], m.name[id] = class, name
			es := map[gEdge]bool{}
			var refs []ua.Reference
			add := func(e gEdge) {
				if es[e] {
					return
				}
				es[e] = true
				refs = append(refs, ua.Reference{ReferenceTypeID: e.rt, IsInverse: e.inverse, TargetID: n01Target(r, w, e.target)})
			}
			pick := func() ua.NodeID {
				switch x := r.Intn(12); {
				case x < 5 && len(m.order) > 0:
					return m.order[r.Intn(len(m.order))]
				case x < 9 && len(pool) > 0:
					return pool[r.Intn(len(pool))]
				case x < 10:
					return id
				case x < 11: // not there yet, or not any more
					if len(dead) > 0 && r.Intn(2) == 0 {
						return dead[r.Intn(len(dead))]
					}
					return randNodeID(r, []uint16{nsA, nsB}[r.Intn(2)], run*100000+next+r.Intn(8))
				}
				return std[r.Intn(len(std))]
			}
			for k := r.Intn(5); k > 0; k-- {
				t := pick()
				rt := rtypes[r.Intn(len(rtypes))]
				inv := r.Intn(2) == 0
				if stdOf(t) && !inv && n01Child[rt] {
					t = leafs[r.Intn(len(leafs))]
					if rt == ua.ReferenceTypeIDHasSubtype {
						rt = ua.ReferenceTypeIDHasComponent
					}
				}
				if stdOf(t) && inv && n01Child[rt] { // protected nodes keep no unprotected children here
					rt = ua.ReferenceTypeIDOrganizes
				}
				add(gEdge{rt, inv, t})
			}
			if r.Intn(2) == 0 {
				add(gEdge{ua.ReferenceTypeIDHasTypeDefinition, false, ua.ObjectTypeIDFolderType})
			}
			if r.Intn(4) == 0 {
				add(gEdge{ua.ReferenceTypeIDHasModellingRule, false, ua.ObjectIDModellingRuleMandatory})
			}
			m.refs[id] = es
			n := n01NewNode(w, class, id, name, refs)
			m.nodes[id] = n
			return n
		}
	}
	var log []string
	kill := func(id ua.NodeID) { m.del(id); dead = append(dead, id) }
	call := func(what string, f func()) bool {
		log = append(log, what)
		if len(log) > 12 {
			log = log[1:]
		}
		if !within(20*time.Second, f) {
			c.Violate("terminates", "%s did not return within 20 s; preceding calls:\n  %s", what, strings.Join(log, "\n  "))
			return false
		}
		return true
	}
	victim := func() ua.NodeID {
		if len(m.order) == 0 {
			return nil
		}
		return m.order[r.Intn(len(m.order))]
	}
	// reach reports whether a recursive delete reaches a protected node.
	for step := 0; step < steps && !c.Violated(); step++ {
		op := r.Intn(10)
		if len(m.order) > 60 && op < 5 {
			op = 5 + r.Intn(5)
		}
		switch {
		case op < 5: // add 1..4 nodes
			var ids []ua.NodeID
			var mk []func() server.Node
			for k := 1 + r.Intn(4); k > 0; k-- {
				if id, f := newNode(ids); id != nil {
					ids = append(ids, id)
					mk = append(mk, f)
				}
			}
			var ns []server.Node
			for _, f := range mk {
				ns = append(ns, f())
			}
			m.order = append(m.order, ids...)
			if len(ns) == 0 {
				continue
			}
			if !call(fmt.Sprintf("AddNodes(%v)", ids), func() {
				if len(ns) == 1 && r.Intn(2) == 0 {
					must(nm.AddNode(ns[0]))
				} else {
					must(nm.AddNodes(ns...))
				}
			}) {
				return
			}
			m.link()
			c.Count("adds", len(ids))
		case op < 6: // DeleteNodeByID
			id := victim()
			want := error(nil)
			switch r.Intn(6) {
			case 0:
				id, want = std[r.Intn(len(std))], ua.BadNodeIDInvalid
			case 1:
				if len(dead) > 0 {
					d := dead[r.Intn(len(dead))]
					if _, ok := m.refs[d]; !ok {
						id, want = d, ua.BadNodeIDUnknown
					}
				}
			}
			if id == nil {
				continue
			}
			var err error
			if !call(fmt.Sprintf("DeleteNodeByID(%v)", id), func() { err = nm.DeleteNodeByID(id) }) {
				return
			}
			if (err == nil) != (want == nil) {
				c.Violate("result", "DeleteNodeByID(%v) returns %v, expected %v", id, err, want)
				return
			}
			if want == nil {
				kill(id)
			}
			c.Count("deletes", 1)
		case op < 8: // recursive by id
			id := victim()
			if id == nil {
				continue
			}
			if r.Intn(8) == 0 {
				id = std[r.Intn(len(std))]
			}
			kids := m.children(id, n01Child)
			var n int
			var err error
			if !call(fmt.Sprintf("DeleteNodeByIDRecursive(%v)", id), func() { n, err = nm.DeleteNodeByIDRecursive(id) }) {
				return
			}
			if stdOf(id) {
				if err == nil || n != 0 {
					c.Violate("protected", "DeleteNodeByIDRecursive(%v) of a standard node returns %d, %v", id, n, err)
					return
				}
				continue
			}
			want := 1
			for k := range kids {
				if !stdOf(k) {
					want++
				}
			}
			if err != nil || n != want {
				c.Violate("result", "DeleteNodeByIDRecursive(%v) returns %d, %v, expected %d", id, n, err, want)
				return
			}
			for k := range kids {
				if !stdOf(k) {
					kill(k)
				}
			}
			kill(id)
			c.Count("recursive_deletes", 1)
		case op < 9: // DeleteNode(s)
			with := r.Intn(2) == 0
			var vs []ua.NodeID
			for k := 1 + r.Intn(2); k > 0; k-- {
				if v := victim(); v != nil && (len(vs) == 0 || vs[0] != v) {
					vs = append(vs, v)
				}
			}
			if len(vs) == 0 {
				continue
			}
			gone := map[ua.NodeID]bool{}
			skip := false
			for _, v := range vs {
				gone[v] = true
				if with {
					for k := range m.children(v, n01Child) {
						gone[k] = true
						skip = skip || stdOf(k)
					}
				}
			}
			if skip {
				continue
			}
			var ns []server.Node
			for _, v := range vs {
				ns = append(ns, m.nodes[v])
			}
			if !call(fmt.Sprintf("DeleteNodes(%v, %v)", vs, with), func() {
				if len(ns) == 1 {
					must(nm.DeleteNode(ns[0], with))
				} else {
					must(nm.DeleteNodes(ns, with))
				}
			}) {
				return
			}
			for v := range gone {
				kill(v)
			}
			c.Count("deletes", len(gone))
		default:
			n01Queries(c, nm, m, r, victim())
		}
		// audit
		if !n01Audit(c, w, m, dead, uris, log) {
			return
		}
		c.Eval(fmt.Sprintf("%d/%d/%s", run, len(m.order), strings.Join(log[max(0, len(log)-1):], "")))
		if step%40 == 39 {
			n01Wire(c, s, m, r, dead, victim(), uris)
		}
	}
	// clean up
	for len(m.order) > 0 {
		id := m.order[0]
		if nm.DeleteNodeByID(id) != nil {
			c.Violate("result", "DeleteNodeByID(%v) fails", id)
			return
		}
		kill(id)
	}
	n01Audit(c, w, m, dead, uris, log)
}

func n01Audit(c *Ctx, w *World, m *n01Model, dead []ua.NodeID, uris []string, log []string) bool {
	nm := w.Srv.NamespaceManager()
	hist := func() string { return strings.Join(log, "\n  ") }
	for id, es := range m.refs {
		n, ok := nm.FindNode(id)
		if !ok || n != m.nodes[id] {
			c.Violate("found", "node %v was added and not deleted but is not found; last calls:\n  %s", id, hist())
			return false
		}
		got, _ := n01Edges(n, uris)
		for e := range es {
			if got[e] != 1 {
				c.Violate("refs", "node %v: reference %s (inverse %v) to %v occurs %d times, expected once (target exists: %v); last calls:\n  %s", id, e.rt, e.inverse, e.target, got[e], m.refs[e.target] != nil, hist())
				return false
			}
		}
		for e := range got {
			if !es[e] {
				c.Violate("refs", "node %v: unexpected reference %s (inverse %v) to %v (target exists: %v); last calls:\n  %s", id, e.rt, e.inverse, e.target, m.refs[e.target] != nil, hist())
				return false
			}
		}
	}
	for _, id := range dead {
		if _, ok := m.refs[id]; ok {
			continue
		}
		if _, ok := nm.FindNode(id); ok {
			c.Violate("found", "deleted node %v is still found; last calls:\n  %s", id, hist())
			return false
		}
	}
	c.Count("audited_nodes", len(m.refs))
	return true
}

func idSet(ids map[ua.NodeID]bool) string {
	var s []string
	for id := range ids {
		s = append(s, fmt.Sprint(id))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// n01Queries compares the lookup functions with the model.
func n01Queries(c *Ctx, nm *server.NamespaceManager, m *n01Model, r *rand.Rand, id ua.NodeID) {
	if id == nil {
		return
	}
	n := m.nodes[id]
	class := m.class[id]
	if _, ok := nm.FindObject(id); ok != (class == ua.NodeClassObject) {
		c.Violate("lookup", "FindObject(%v) of class %v: %v", id, class, ok)
	}
	if _, ok := nm.FindVariable(id); ok != (class == ua.NodeClassVariable) {
		c.Violate("lookup", "FindVariable(%v) of class %v: %v", id, class, ok)
	}
	if _, ok := nm.FindMethod(id); ok != (class == ua.NodeClassMethod) {
		c.Violate("lookup", "FindMethod(%v) of class %v: %v", id, class, ok)
	}
	// components by name
	comps := map[ua.NodeID]bool{}
	var bn ua.QualifiedName
	for e := range m.refs[id] {
		if e.rt == ua.ReferenceTypeIDHasComponent && !e.inverse && m.refs[e.target] != nil && nodeNS(e.target) != 0 {
			bn = m.name[e.target]
		}
	}
	for e := range m.refs[id] {
		if e.rt == ua.ReferenceTypeIDHasComponent && !e.inverse && m.refs[e.target] != nil && m.nodes[e.target].BrowseName() == bn {
			comps[e.target] = true
		}
	}
	x, ok := nm.FindComponent(n, bn)
	if ok != (len(comps) > 0) || ok && !comps[x.NodeID()] {
		c.Violate("lookup", "FindComponent(%v, %v) finds %v (%v), expected one of %s", id, bn, x, ok, idSet(comps))
	}
	// subtypes
	want := m.children(id, map[ua.NodeID]bool{ua.ReferenceTypeIDHasSubtype: true})
	got := map[ua.NodeID]bool{}
	var list []server.Node
	if !within(20*time.Second, func() { list = nm.GetSubTypes(n) }) {
		c.Violate("terminates", "GetSubTypes(%v) did not return within 20 s", id)
		return
	}
	for _, y := range list {
		if got[y.NodeID()] {
			c.Violate("lookup", "GetSubTypes(%v) lists %v twice", id, y.NodeID())
		}
		got[y.NodeID()] = true
	}
	if idSet(got) != idSet(want) {
		c.Violate("lookup", "GetSubTypes(%v) = %s, expected %s", id, idSet(got), idSet(want))
	}
	// supertype chain, where it is unambiguous
	var up []ua.NodeID
	cur := id
	for k := 0; k < 50; k++ {
		var sup []ua.NodeID
		for e := range m.refs[cur] {
			if e.rt == ua.ReferenceTypeIDHasSubtype && e.inverse {
				sup = append(sup, e.target)
			}
		}
		if len(sup) != 1 {
			if len(sup) > 1 {
				up = nil
			}
			break
		}
		cur = sup[0]
		up = append(up, cur)
	}
	if len(up) > 0 && len(up) < 50 {
		for _, u := range up {
			if !nm.IsSubtype(id, u) {
				c.Violate("lookup", "IsSubtype(%v, %v) is false; supertypes are %v", id, u, up)
			}
		}
		if nm.FindSuperType(id) != up[0] {
			c.Violate("lookup", "FindSuperType(%v) = %v, expected %v", id, nm.FindSuperType(id), up[0])
		}
		c.Count("supertype_chains", 1)
	}
	c.Count("queries", 1)
}

// n01Wire compares what a client sees with the model.
func n01Wire(c *Ctx, s *raw.Client, m *n01Model, r *rand.Rand, dead []ua.NodeID, id ua.NodeID, uris []string) {
	if id == nil {
		return
	}
	res, err := s.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: id, BrowseDirection: ua.BrowseDirectionBoth, IncludeSubtypes: true, ResultMask: 63}}})
	if err != nil {
		c.Violate("wire", "browse: %v", err)
		return
	}
	got := map[gEdge]bool{}
	for _, d := range res.(*ua.BrowseResponse).Results[0].References {
		got[gEdge{d.ReferenceTypeID, !d.IsForward, ua.ToNodeID(d.NodeID, uris)}] = true
	}
	for e := range m.refs[id] {
		if m.refs[e.target] != nil && !got[e] && !oneWay(e.rt) {
			c.Violate("wire", "browse of %v misses %v", id, e)
		}
	}
	for e := range got {
		if !m.refs[id][e] {
			c.Violate("wire", "browse of %v reports %v", id, e)
		}
	}
	if len(dead) == 0 {
		return
	}
	d := dead[r.Intn(len(dead))]
	if m.refs[d] != nil {
		return
	}
	rd, err := s.Do(&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: d, AttributeID: ua.AttributeIDBrowseName}, {NodeID: id, AttributeID: ua.AttributeIDNodeID}}})
	if err != nil {
		c.Violate("wire", "read: %v", err)
		return
	}
	rs := rd.(*ua.ReadResponse).Results
	if rs[0].StatusCode != ua.BadNodeIDUnknown || rs[1].StatusCode.IsBad() || rs[1].Value != ua.Variant(id) {
		c.Violate("wire", "read of deleted %v: %#x, of existing %v: %v %#x", d, uint32(rs[0].StatusCode), id, rs[1].Value, uint32(rs[1].StatusCode))
	}
	c.Count("wire_audits", 1)
}

// n01Concurrent: tasks add and delete subtrees below shared hubs while clients browse and read.
func n01Concurrent(c *Ctx, w *World, r *rand.Rand, run int) {
	nm := w.Srv.NamespaceManager()
	ns := w.ensureNS()
	hub := func(i int) ua.NodeID { return ua.NewNodeIDString(ns, fmt.Sprintf("N01.%d.hub%d", run, i)) }
	const hubs, workers, stable = 3, 6, 5
	stableKids := map[int]map[ua.NodeID]bool{}
	for i := 0; i < hubs; i++ {
		must(nm.AddNode(n01NewNode(w, ua.NodeClassObject, hub(i), ua.NewQualifiedName(ns, "hub"), []ua.Reference{organizedBy(ua.ObjectIDObjectsFolder)})))
		stableKids[i] = map[ua.NodeID]bool{}
		for k := 0; k < stable; k++ {
			id := ua.NewNodeIDString(ns, fmt.Sprintf("N01.%d.hub%d.s%d", run, i, k))
			stableKids[i][id] = true
			must(nm.AddNode(n01NewNode(w, ua.NodeClassVariable, id, ua.NewQualifiedName(ns, "s"), []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(hub(i))}})))
		}
	}
	uris := nm.NamespaceUris()
	var wg sync.WaitGroup
	var stop int32
	final := make([]map[ua.NodeID]int, workers) // surviving subtree root -> hub
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int, rr *rand.Rand) {
			defer wg.Done()
			live := map[ua.NodeID]int{}
			type tree struct {
				id   ua.NodeID
				node server.Node
				kids []ua.NodeID
				hub  int
			}
			var trees []tree
			for n := 0; n < 120 && !c.Violated(); n++ {
				if len(trees) < 3 || rr.Intn(2) == 0 {
					h := rr.Intn(hubs)
					t := tree{id: randNodeID(rr, ns, 1000000+run*100000+k*1000+n), hub: h}
					refs := []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: n01Target(rr, w, hub(h))},
						{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: n01Target(rr, w, hub((h+1)%hubs))}}
					t.node = n01NewNode(w, ua.NodeClassObject, t.id, ua.NewQualifiedName(ns, "t"), refs)
					nodes := []server.Node{t.node}
					for q := rr.Intn(4); q > 0; q-- {
						kid := ua.NewNodeIDString(ns, fmt.Sprintf("N01.%d.k%d.%d.%d", run, k, n, q))
						t.kids = append(t.kids, kid)
						kr := []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasProperty, IsInverse: true, TargetID: n01Target(rr, w, t.id)}}
						if rr.Intn(3) == 0 { // cycle
							kr = append(kr, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetID: n01Target(rr, w, t.id)})
						}
						nodes = append(nodes, n01NewNode(w, ua.NodeClassVariable, kid, ua.NewQualifiedName(ns, "k"), kr))
					}
					must(nm.AddNodes(nodes...))
					for _, x := range append([]ua.NodeID{t.id}, t.kids...) {
						if _, ok := nm.FindNode(x); !ok {
							c.Violate("found", "concurrently added node %v is not found after AddNodes returned", x)
						}
					}
					live[t.id] = h
					trees = append(trees, t)
				} else {
					i := rr.Intn(len(trees))
					t := trees[i]
					trees = append(trees[:i], trees[i+1:]...)
					ok := within(60*time.Second, func() {
						if rr.Intn(2) == 0 {
							cnt, err := nm.DeleteNodeByIDRecursive(t.id)
							if err != nil || cnt != 1+len(t.kids) {
								c.Violate("result", "concurrent DeleteNodeByIDRecursive(%v) returns %d, %v, expected %d", t.id, cnt, err, 1+len(t.kids))
							}
						} else {
							must(nm.DeleteNode(t.node, true))
						}
					})
					if !ok {
						c.Violate("terminates", "a concurrent delete did not return within 60 s")
						return
					}
					for _, x := range append([]ua.NodeID{t.id}, t.kids...) {
						if _, ok := nm.FindNode(x); ok {
							c.Violate("found", "concurrently deleted node %v is found after the delete returned", x)
						}
					}
					delete(live, t.id)
				}
				c.Eval(fmt.Sprintf("conc/%d/%d/%d", run, k, n))
			}
			final[k] = live
		}(k, rand.New(rand.NewSource(r.Int63())))
	}
	var cwg sync.WaitGroup
	for k := 0; k < 3; k++ {
		s, err := w.RawSession(raw.None, raw.ModeNone)
		if err != nil {
			c.Inconclusive("session: %v", err)
			continue
		}
		cwg.Add(1)
		go func(s *raw.Client, rr *rand.Rand) {
			defer cwg.Done()
			defer s.Close()
			for atomic.LoadInt32(&stop) == 0 && !c.Violated() {
				h := rr.Intn(hubs)
				res, err := s.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: hub(h), BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63}}})
				if err != nil {
					c.Violate("service", "browse during changes: %v", err)
					return
				}
				b := res.(*ua.BrowseResponse).Results[0]
				if b.StatusCode.IsBad() {
					c.Violate("service", "browse of stable %v during changes: %#x", hub(h), uint32(b.StatusCode))
					return
				}
				seen := map[ua.NodeID]int{}
				for _, d := range b.References {
					seen[ua.ToNodeID(d.NodeID, uris)]++
				}
				for id := range stableKids[h] {
					if seen[id] != 1 {
						c.Violate("stable", "browse of %v during changes reports its constant child %v %d times", hub(h), id, seen[id])
						return
					}
				}
				var rq ua.ReadRequest
				for id := range stableKids[h] {
					rq.NodesToRead = append(rq.NodesToRead, ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue})
				}
				rd, err := s.Do(&rq)
				if err != nil {
					c.Violate("service", "read during changes: %v", err)
					return
				}
				for _, x := range rd.(*ua.ReadResponse).Results {
					if x.StatusCode.IsBad() {
						c.Violate("stable", "read of a constant node during changes: %#x", uint32(x.StatusCode))
					}
				}
				c.Count("client_rounds", 1)
			}
		}(s, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	cwg.Wait()
	if c.Violated() {
		return
	}
	want := map[int]map[gEdge]bool{}
	for i := 0; i < hubs; i++ {
		want[i] = map[gEdge]bool{{ua.ReferenceTypeIDOrganizes, true, ua.ObjectIDObjectsFolder}: true}
		for id := range stableKids[i] {
			want[i][gEdge{ua.ReferenceTypeIDHasComponent, false, id}] = true
		}
	}
	for _, live := range final {
		for id, h := range live {
			want[h][gEdge{ua.ReferenceTypeIDHasComponent, false, id}] = true
			want[(h+1)%hubs][gEdge{ua.ReferenceTypeIDOrganizes, false, id}] = true
		}
	}
	for i := 0; i < hubs; i++ {
		n, ok := nm.FindNode(hub(i))
		if !ok {
			c.Violate("found", "hub is gone")
			return
		}
		got, _ := n01Edges(n, uris)
		for e := range want[i] {
			if got[e] != 1 {
				c.Violate("refs", "after concurrent changes hub %v has reference %s to %v %d times", hub(i), e.rt, e.target, got[e])
			}
		}
		for e := range got {
			if !want[i][e] {
				_, ok := nm.FindNode(e.target)
				c.Violate("refs", "after concurrent changes hub %v has an unexpected reference %s to %v (exists: %v)", hub(i), e.rt, e.target, ok)
			}
		}
	}
	for i := 0; i < hubs; i++ {
		if _, err := nm.DeleteNodeByIDRecursive(hub(i)); err != nil {
			c.Violate("result", "DeleteNodeByIDRecursive(hub): %v", err)
		}
	}
	c.Count("concurrent_rounds", 1)
}
