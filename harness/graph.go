package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

// gNode is a node of the model graph.
type gNode struct {
	id      ua.NodeID
	class   ua.NodeClass
	name    ua.QualifiedName
	display ua.LocalizedText
	typedef ua.NodeID
	perms   []ua.RolePermissionType // nil: server default
	node    server.Node
}

// gEdge is one reference as seen from its owner.
type gEdge struct {
	rt      ua.NodeID
	inverse bool
	target  ua.NodeID
}

// graph is the reference model of a piece of address space.
type graph struct {
	nodes  []*gNode
	byID   map[ua.NodeID]*gNode
	out    map[ua.NodeID]map[gEdge]bool
	super  map[ua.NodeID]ua.NodeID // reference type -> supertype
	rtypes []ua.NodeID
}

var gUsers = map[string][]ua.NodeID{
	"":      {ua.ObjectIDWellKnownRoleAnonymous},
	"user1": {ua.ObjectIDWellKnownRoleAuthenticatedUser, ua.ObjectIDWellKnownRoleOperator},
	"user2": {ua.ObjectIDWellKnownRoleAuthenticatedUser},
	"op":    {ua.ObjectIDWellKnownRoleObserver, ua.ObjectIDWellKnownRoleEngineer},
	"root":  {ua.ObjectIDWellKnownRoleSupervisor, ua.ObjectIDWellKnownRoleSecurityAdmin},
}

// gRoles is the roles provider of the model.
func gRoles(identity any, _, _ string) ([]ua.NodeID, error) {
	switch x := identity.(type) {
	case ua.AnonymousIdentity:
		return gUsers[""], nil
	case ua.UserNameIdentity:
		if r, ok := gUsers[x.UserName]; ok {
			return r, nil
		}
	}
	return nil, ua.BadUserAccessDenied
}

// rolesHave tells whether a user holds a permission in a permission table.
func rolesHave(user string, perms []ua.RolePermissionType, p ua.PermissionType) bool {
	for _, r := range gUsers[user] {
		for _, rp := range perms {
			if rp.RoleID == r && rp.Permissions&p != 0 {
				return true
			}
		}
	}
	return false
}

var gDefaultPerms = []ua.RolePermissionType{
	{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: allPermissions},
	{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: allPermissions},
	{RoleID: ua.ObjectIDWellKnownRoleObserver, Permissions: allPermissions},
	{RoleID: ua.ObjectIDWellKnownRoleSupervisor, Permissions: allPermissions},
}

func (g *graph) visible(user string, n server.Node) bool {
	p := n.RolePermissions()
	if m := g.byID[n.NodeID()]; m != nil {
		p = m.perms
	}
	if p == nil {
		p = gDefaultPerms
	}
	return rolesHave(user, p, ua.PermissionTypeBrowse)
}

func (g *graph) subtypeOf(nm *server.NamespaceManager, sub, super ua.NodeID) bool {
	for i := 0; i < 200 && sub != nil; i++ {
		if sub == super {
			return true
		}
		if s, ok := g.super[sub]; ok {
			sub = s
			continue
		}
		n, ok := nm.FindNode(sub)
		if !ok {
			return false
		}
		sub = nil
		for _, r := range n.References() {
			if r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
				sub = ua.ToNodeID(r.TargetID, nm.NamespaceUris())
			}
		}
	}
	return false
}

// edges returns the references of any node: from the model, or for standard nodes from the node object.
func (g *graph) edges(nm *server.NamespaceManager, id ua.NodeID) map[gEdge]bool {
	if e, ok := g.out[id]; ok && g.byID[id] != nil {
		return e
	}
	out := map[gEdge]bool{}
	if n, ok := nm.FindNode(id); ok {
		for _, r := range n.References() {
			out[gEdge{r.ReferenceTypeID, r.IsInverse, ua.ToNodeID(r.TargetID, nm.NamespaceUris())}] = true
		}
	}
	return out
}

func randNodeID(r *rand.Rand, ns uint16, k int) ua.NodeID {
	switch r.Intn(4) {
	case 0:
		return ua.NewNodeIDNumeric(ns, uint32(100000+k))
	case 1:
		var u uuid.UUID
		r.Read(u[:])
		return ua.NewNodeIDGUID(ns, u)
	case 2:
		return ua.NewNodeIDOpaque(ns, ua.ByteString(fmt.Sprintf("\x00op%d", k)))
	}
	return ua.NewNodeIDString(ns, fmt.Sprintf("g%d;x=é", k))
}

// buildGraph adds n random nodes with random references.
func buildGraph(w *World, r *rand.Rand, n int) *graph {
	ns := w.ensureNS()
	ns3 := w.Srv.NamespaceManager().Add("urn:verif:more;%")
	g := &graph{byID: map[ua.NodeID]*gNode{}, out: map[ua.NodeID]map[gEdge]bool{}, super: map[ua.NodeID]ua.NodeID{}}
	std := []ua.NodeID{ua.ReferenceTypeIDOrganizes, ua.ReferenceTypeIDHasComponent, ua.ReferenceTypeIDHasProperty, ua.ReferenceTypeIDHasOrderedComponent, ua.ReferenceTypeIDHasEventSource, ua.ReferenceTypeIDHasNotifier, ua.ReferenceTypeIDGeneratesEvent, ua.ReferenceTypeIDHasDescription}
	g.rtypes = append(g.rtypes, std...)
	var rts []server.Node
	for k := 0; k < 10; k++ {
		id := ua.NewNodeIDNumeric(ns, uint32(5000+k))
		sup := g.rtypes[r.Intn(len(g.rtypes))]
		if k > 2 && r.Intn(2) == 0 {
			sup = ua.NewNodeIDNumeric(ns, uint32(5000+k-1))
		}
		g.super[id] = sup
		rts = append(rts, server.NewReferenceTypeNode(w.Srv, id, ua.NewQualifiedName(ns, fmt.Sprintf("rt%d", k)), ua.NewLocalizedText("rt", ""), ua.LocalizedText{}, nil,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasSubtype, IsInverse: true, TargetID: ua.NewExpandedNodeID(sup)}}, false, false, ua.LocalizedText{}))
		g.rtypes = append(g.rtypes, id)
	}
	must(w.Srv.NamespaceManager().AddNodes(rts...))
	roles := []ua.NodeID{ua.ObjectIDWellKnownRoleAnonymous, ua.ObjectIDWellKnownRoleAuthenticatedUser, ua.ObjectIDWellKnownRoleObserver, ua.ObjectIDWellKnownRoleOperator, ua.ObjectIDWellKnownRoleEngineer, ua.ObjectIDWellKnownRoleSupervisor, ua.ObjectIDWellKnownRoleSecurityAdmin}
	names := []string{"A", "B", "C", "D"}
	for k := 0; k < n; k++ {
		m := &gNode{class: []ua.NodeClass{ua.NodeClassObject, ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassView, ua.NodeClassObjectType, ua.NodeClassVariableType, ua.NodeClassDataType}[r.Intn(9)]}
		mns := ns
		if r.Intn(3) == 0 {
			mns = ns3
		}
		m.id = randNodeID(r, mns, k)
		m.name = ua.NewQualifiedName(mns, names[r.Intn(len(names))])
		m.display = ua.NewLocalizedText(fmt.Sprintf("node %d", k), []string{"", "en"}[r.Intn(2)])
		switch m.class {
		case ua.NodeClassObject:
			m.typedef = []ua.NodeID{ua.ObjectTypeIDFolderType, ua.ObjectTypeIDBaseObjectType}[r.Intn(2)]
		case ua.NodeClassVariable:
			m.typedef = []ua.NodeID{ua.VariableTypeIDBaseDataVariableType, ua.VariableTypeIDPropertyType}[r.Intn(2)]
		}
		if r.Intn(3) == 0 {
			m.perms = []ua.RolePermissionType{}
			for _, ro := range roles {
				if r.Intn(2) == 0 {
					m.perms = append(m.perms, ua.RolePermissionType{RoleID: ro, Permissions: ua.PermissionType(r.Uint32() & 0x1ffff)})
				}
			}
		}
		g.nodes = append(g.nodes, m)
		g.byID[m.id] = m
		g.out[m.id] = map[gEdge]bool{}
	}
	refs := map[ua.NodeID][]ua.Reference{}
	decl := func(owner ua.NodeID, rt ua.NodeID, inv bool, target ua.NodeID) {
		x := ua.NewExpandedNodeID(target)
		if r.Intn(4) == 0 { // by namespace URI
			if u := nodeNS(target); u == ns {
				x = ua.ExpandedNodeID{NamespaceURI: "urn:verif:nodes", NodeID: withNS(target, 0)}
			} else if u == ns3 {
				x = ua.ExpandedNodeID{NamespaceURI: "urn:verif:more;%", NodeID: withNS(target, 0)}
			}
		}
		refs[owner] = append(refs[owner], ua.Reference{ReferenceTypeID: rt, IsInverse: inv, TargetID: x})
	}
	link := func(a, b *gNode, rt ua.NodeID) {
		if g.out[a.id][gEdge{rt, false, b.id}] {
			return
		}
		g.out[a.id][gEdge{rt, false, b.id}] = true
		g.out[b.id][gEdge{rt, true, a.id}] = true
		switch r.Intn(3) {
		case 0:
			decl(a.id, rt, false, b.id)
		case 1:
			decl(b.id, rt, true, a.id)
		default:
			decl(a.id, rt, false, b.id)
			if a != b {
				decl(b.id, rt, true, a.id)
			}
		}
	}
	for k := 1; k < n; k++ {
		link(g.nodes[r.Intn(k)], g.nodes[k], g.rtypes[r.Intn(len(g.rtypes))])
	}
	for k := 0; k < 3*n; k++ {
		a := g.nodes[r.Intn(n)]
		if r.Intn(2) == 0 {
			a = g.nodes[r.Intn(1+n/8)]
		}
		b := g.nodes[r.Intn(n)]
		if a == b && r.Intn(4) > 0 {
			continue
		}
		link(a, b, g.rtypes[r.Intn(len(g.rtypes))])
	}
	for k := 0; k < 6 && k < n; k++ {
		m := g.nodes[k]
		g.out[m.id][gEdge{ua.ReferenceTypeIDOrganizes, true, ua.ObjectIDObjectsFolder}] = true
		decl(m.id, ua.ReferenceTypeIDOrganizes, true, ua.ObjectIDObjectsFolder)
	}
	for _, m := range g.nodes {
		if m.typedef != nil {
			g.out[m.id][gEdge{ua.ReferenceTypeIDHasTypeDefinition, false, m.typedef}] = true
			decl(m.id, ua.ReferenceTypeIDHasTypeDefinition, false, m.typedef)
		}
		m.node = g.make(w, m, refs[m.id])
	}
	order := r.Perm(n)
	for i := 0; i < n; {
		k := 1 + r.Intn(n)
		if i+k > n {
			k = n - i
		}
		var batch []server.Node
		for _, x := range order[i : i+k] {
			batch = append(batch, g.nodes[x].node)
		}
		must(w.Srv.NamespaceManager().AddNodes(batch...))
		i += k
	}
	return g
}

func (g *graph) make(w *World, m *gNode, refs []ua.Reference) server.Node {
	desc := ua.NewLocalizedText("desc", "")
	switch m.class {
	case ua.NodeClassObject:
		return server.NewObjectNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, 0)
	case ua.NodeClassVariable:
		now := time.Now()
		return server.NewVariableNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, ua.NewDataValue(int32(1), 0, now, 0, now, 0), ua.DataTypeIDInt32, -1, nil, 3, 0, false, nil)
	case ua.NodeClassMethod:
		return server.NewMethodNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, true)
	case ua.NodeClassView:
		return server.NewViewNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, true, 0)
	case ua.NodeClassObjectType:
		return server.NewObjectTypeNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, false)
	case ua.NodeClassVariableType:
		now := time.Now()
		return server.NewVariableTypeNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, ua.NewDataValue(int32(1), 0, now, 0, now, 0), ua.DataTypeIDInt32, -1, nil, false)
	case ua.NodeClassDataType:
		return server.NewDataTypeNode(w.Srv, m.id, m.name, m.display, desc, m.perms, refs, false, nil)
	}
	panic("class")
}

func nodeNS(id ua.NodeID) uint16 {
	switch x := id.(type) {
	case ua.NodeIDNumeric:
		return x.NamespaceIndex
	case ua.NodeIDString:
		return x.NamespaceIndex
	case ua.NodeIDGUID:
		return x.NamespaceIndex
	case ua.NodeIDOpaque:
		return x.NamespaceIndex
	}
	return 0
}
