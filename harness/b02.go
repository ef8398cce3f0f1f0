package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

// expectPath walks the model; ok=false means nothing matches.
func (g *graph) expectPath(nm *server.NamespaceManager, user string, p ua.BrowsePath) (ua.StatusCode, []string) {
	if len(p.RelativePath.Elements) == 0 {
		return ua.BadNothingToDo, nil
	}
	for _, e := range p.RelativePath.Elements {
		if e.TargetName.Name == "" {
			return ua.BadBrowseNameInvalid, nil
		}
	}
	start, ok := nm.FindNode(p.StartingNode)
	if !ok || !g.visible(user, start) {
		return ua.BadNodeIDUnknown, nil
	}
	cur := map[ua.NodeID]bool{p.StartingNode: true}
	for _, el := range p.RelativePath.Elements {
		next := map[ua.NodeID]bool{}
		for id := range cur {
			for e := range g.edges(nm, id) {
				if e.inverse != el.IsInverse {
					continue
				}
				if el.ReferenceTypeID != nil && e.rt != el.ReferenceTypeID && !(el.IncludeSubtypes && g.subtypeOf(nm, e.rt, el.ReferenceTypeID)) {
					continue
				}
				t, ok := nm.FindNode(e.target)
				if !ok || !g.visible(user, t) || t.BrowseName() != el.TargetName {
					continue
				}
				next[e.target] = true
			}
		}
		cur = next
	}
	if len(cur) == 0 {
		return ua.BadNoMatch, nil
	}
	var out []string
	for id := range cur {
		out = append(out, fmt.Sprint(id))
	}
	sort.Strings(out)
	return ua.Good, out
}

// randPath makes a path that often follows real references.
func (g *graph) randPath(r *rand.Rand, nm *server.NamespaceManager, ids []ua.NodeID, ns uint16) ua.BrowsePath {
	p := ua.BrowsePath{}
	switch r.Intn(12) {
	case 0:
		p.StartingNode = ua.NewNodeIDString(ns, "absent")
	case 1, 2:
		p.StartingNode = ids[r.Intn(len(ids))]
	default:
		p.StartingNode = g.nodes[r.Intn(len(g.nodes))].id
	}
	cur := p.StartingNode
	n := 1 + r.Intn(4)
	if r.Intn(30) == 0 {
		n = 0
	}
	if r.Intn(30) == 0 {
		n = 20
	}
	for i := 0; i < n; i++ {
		el := ua.RelativePathElement{IncludeSubtypes: r.Intn(2) == 0, IsInverse: r.Intn(3) == 0}
		if r.Intn(3) > 0 {
			el.ReferenceTypeID = g.rtypes[r.Intn(len(g.rtypes))]
		}
		if es := g.edges(nm, cur); len(es) > 0 && r.Intn(8) > 0 {
			k := r.Intn(len(es))
			keys := make([]string, 0, len(es))
			by := map[string]gEdge{}
			for e := range es {
				s := fmt.Sprint(e)
				keys = append(keys, s)
				by[s] = e
			}
			sort.Strings(keys)
			e := by[keys[k]]
			el.IsInverse = e.inverse
			if el.ReferenceTypeID != nil {
				el.ReferenceTypeID = e.rt
				for r.Intn(2) == 0 && g.super[el.ReferenceTypeID] != nil {
					el.ReferenceTypeID = g.super[el.ReferenceTypeID]
				}
			}
			if t, ok := nm.FindNode(e.target); ok {
				el.TargetName = t.BrowseName()
				cur = e.target
			}
		} else {
			el.TargetName = ua.NewQualifiedName(ns, []string{"A", "B", "C", "D", "zz"}[r.Intn(5)])
		}
		switch r.Intn(25) {
		case 0:
			el.TargetName.NamespaceIndex++
		case 1:
			el.TargetName.Name = strings.ToLower(el.TargetName.Name)
		case 2:
			if r.Intn(3) == 0 {
				el.TargetName.Name = ""
			}
		case 3:
			el.IsInverse = !el.IsInverse
		}
		p.RelativePath.Elements = append(p.RelativePath.Elements, el)
	}
	return p
}

func runB02(c *Ctx) {
	w := graphWorld(c)
	defer w.Srv.Close()
	r := c.Rng("b02")
	g := buildGraph(w, r, c.N(120, 300))
	ss := graphSessions(c, w)
	if ss == nil {
		return
	}
	nm := w.Srv.NamespaceManager()
	ids := allNodeIDs(w)
	ns := w.ensureNS()
	uris := nm.NamespaceUris()
	var wg sync.WaitGroup
	for _, s := range ss {
		wg.Add(1)
		go func(s *bSession, r *rand.Rand) {
			defer wg.Done()
			for k := 0; k < c.N(2000, 20000) && !c.Violated(); k++ {
				req := &ua.TranslateBrowsePathsToNodeIDsRequest{}
				n := 1 + r.Intn(8)
				for i := 0; i < n; i++ {
					req.BrowsePaths = append(req.BrowsePaths, g.randPath(r, nm, ids, ns))
				}
				res, err := s.s.Do(req)
				if err != nil {
					c.Violate("service", "translate: %v", err)
					return
				}
				tr, ok := res.(*ua.TranslateBrowsePathsToNodeIDsResponse)
				if !ok || len(tr.Results) != n {
					c.Violate("service", "translate of %d paths answered with %T", n, res)
					return
				}
				for i, p := range req.BrowsePaths {
					st, want := g.expectPath(nm, s.user, p)
					x := tr.Results[i]
					set := map[string]bool{}
					for _, t := range x.Targets {
						set[fmt.Sprint(ua.ToNodeID(t.TargetID, uris))] = true
						if t.RemainingPathIndex != 0xffffffff {
							c.Violate("partial", "path %+v: target %v with remaining path index %d, all nodes are local", p, t.TargetID, t.RemainingPathIndex)
						}
					}
					var got []string
					for t := range set {
						got = append(got, t)
					}
					sort.Strings(got)
					c.Eval(fmt.Sprintf("%s/%+v", s.user, p))
					if st == ua.Good {
						c.Count("paths_matched", 1)
					}
					if len(want) > 1 {
						c.Count("paths_with_several_targets", 1)
					}
					if x.StatusCode != st {
						c.Violate("status", "user %q path %+v gives status %#x, expected %#x (targets %v)", s.user, p, uint32(x.StatusCode), uint32(st), want)
					} else if strings.Join(got, " ") != strings.Join(want, " ") {
						miss, extra := diffSorted(want, got)
						c.Violate("targets", "user %q path %+v: missing %v, unexpected %v", s.user, p, miss, extra)
					}
					c.Sample("path", map[string]any{"user": s.user, "path": fmt.Sprintf("%+v", p), "targets": want})
				}
			}
		}(s, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
}
