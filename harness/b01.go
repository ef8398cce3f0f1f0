package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("B01", &check{run: runB01, minEvals: 500, minDistinct: 200,
		rule: "distinct (user, node, direction, reference type, subtypes, class mask, result mask, limit) browse requests compared with a reference model of the graph"})
	register("B02", &check{run: runB02, minEvals: 500, minDistinct: 200,
		rule: "distinct (user, start, path) translations compared with a set-semantics walk of the reference graph"})
}

type bSession struct {
	user string
	s    *raw.Client
}

func graphWorld(c *Ctx, opts ...server.Option) *World {
	return newWorld(c, WorldOpts{Opts: append([]server.Option{server.WithGetRolesFunc(gRoles), server.WithRolePermissions(gDefaultPerms)}, opts...)})
}

func graphSessions(c *Ctx, w *World) []*bSession {
	var out []*bSession
	for _, u := range []string{"", "user1", "user2", "op", "root"} {
		var s *raw.Client
		var err error
		if u == "" {
			s, err = w.RawSession(raw.None, raw.ModeNone)
		} else {
			s, err = w.RawUser(raw.None, raw.ModeNone, u, userDB[u])
		}
		if err != nil {
			c.Inconclusive("session %q: %v", u, err)
			return nil
		}
		out = append(out, &bSession{u, s})
	}
	return out
}

// refKey is a reference description as text.
func refKey(uris []string, d ua.ReferenceDescription) string {
	return fmt.Sprintf("rt=%v fwd=%v id=%v nc=%d bn=%v dn=%v td=%v", d.ReferenceTypeID, d.IsForward, ua.ToNodeID(d.NodeID, uris), d.NodeClass, d.BrowseName, d.DisplayName, ua.ToNodeID(d.TypeDefinition, uris))
}

// expectBrowse computes the expected references.
func (g *graph) expectBrowse(nm *server.NamespaceManager, user string, d ua.BrowseDescription) (ua.StatusCode, []string) {
	if d.BrowseDirection < 0 || d.BrowseDirection > 2 {
		return ua.BadBrowseDirectionInvalid, nil
	}
	n, ok := nm.FindNode(d.NodeID)
	if !ok || !g.visible(user, n) {
		return ua.BadNodeIDUnknown, nil
	}
	if d.ReferenceTypeID != nil {
		if rt, ok := nm.FindNode(d.ReferenceTypeID); !ok || rt.NodeClass() != ua.NodeClassReferenceType {
			return ua.BadReferenceTypeIDInvalid, nil
		}
	}
	uris := nm.NamespaceUris()
	var out []string
	for e := range g.edges(nm, d.NodeID) {
		if d.BrowseDirection == ua.BrowseDirectionForward && e.inverse || d.BrowseDirection == ua.BrowseDirectionInverse && !e.inverse {
			continue
		}
		if d.ReferenceTypeID != nil && e.rt != d.ReferenceTypeID && !(d.IncludeSubtypes && g.subtypeOf(nm, e.rt, d.ReferenceTypeID)) {
			continue
		}
		t, ok := nm.FindNode(e.target)
		if !ok || !g.visible(user, t) {
			continue
		}
		if d.NodeClassMask != 0 && d.NodeClassMask&uint32(t.NodeClass()) == 0 {
			continue
		}
		rd := ua.ReferenceDescription{NodeID: ua.NewExpandedNodeID(e.target)}
		if d.ResultMask&1 != 0 {
			rd.ReferenceTypeID = e.rt
		}
		if d.ResultMask&2 != 0 {
			rd.IsForward = !e.inverse
		}
		if d.ResultMask&4 != 0 {
			rd.NodeClass = t.NodeClass()
		}
		if d.ResultMask&8 != 0 {
			rd.BrowseName = t.BrowseName()
		}
		if d.ResultMask&16 != 0 {
			rd.DisplayName = t.DisplayName()
		}
		if d.ResultMask&32 != 0 && (t.NodeClass() == ua.NodeClassObject || t.NodeClass() == ua.NodeClassVariable) {
			for e2 := range g.edges(nm, e.target) {
				if e2.rt == ua.ReferenceTypeIDHasTypeDefinition && !e2.inverse {
					rd.TypeDefinition = ua.NewExpandedNodeID(e2.target)
				}
			}
		}
		out = append(out, refKey(uris, rd))
	}
	sort.Strings(out)
	return ua.Good, out
}

func (g *graph) randDesc(r *rand.Rand, ids []ua.NodeID, ns uint16) ua.BrowseDescription {
	d := ua.BrowseDescription{BrowseDirection: ua.BrowseDirection(r.Intn(3)), ResultMask: uint32(r.Intn(64))}
	if r.Intn(3) == 0 {
		d.ResultMask = 63
	}
	switch r.Intn(12) {
	case 0:
		d.NodeID = ua.NewNodeIDString(ns, "absent")
	case 1, 2:
		d.NodeID = ids[r.Intn(len(ids))]
	default:
		k := len(g.nodes)
		if r.Intn(2) == 0 {
			k = 1 + k/8
		}
		d.NodeID = g.nodes[r.Intn(k)].id
	}
	if r.Intn(40) == 0 {
		d.BrowseDirection = ua.BrowseDirection([]int32{3, -1, 7}[r.Intn(3)])
	}
	switch r.Intn(10) {
	case 0, 1, 2:
	case 3:
		d.ReferenceTypeID = ua.NewNodeIDNumeric(0, []uint32{31, 32, 33, 34, 44, 45, 46, 47}[r.Intn(8)])
	case 4:
		d.ReferenceTypeID = []ua.NodeID{ua.ObjectIDServer, ua.NewNodeIDNumeric(0, 999999), ua.NewNodeIDString(ns, "x")}[r.Intn(3)]
	default:
		d.ReferenceTypeID = g.rtypes[r.Intn(len(g.rtypes))]
	}
	d.IncludeSubtypes = r.Intn(2) == 0
	if r.Intn(2) == 0 {
		d.NodeClassMask = uint32(r.Intn(256))
	}
	return d
}

func runB01(c *Ctx) {
	w := graphWorld(c)
	defer w.Srv.Close()
	r := c.Rng("b01")
	g := buildGraph(w, r, c.N(120, 300))
	ss := graphSessions(c, w)
	if ss == nil {
		return
	}
	nm := w.Srv.NamespaceManager()
	ids := allNodeIDs(w)
	ns := w.ensureNS()
	uris := nm.NamespaceUris()
	var wg sync.WaitGroup
	for _, s := range ss {
		wg.Add(1)
		go func(s *bSession, r *rand.Rand) {
			defer wg.Done()
			b01User(c, w, g, s, ss[0], r, ids, ns, uris)
		}(s, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	b01Points(c, w, g, ss, r)
}

func b01User(c *Ctx, w *World, g *graph, s, other *bSession, r *rand.Rand, ids []ua.NodeID, ns uint16, uris []string) {
	nm := w.Srv.NamespaceManager()
	for k := 0; k < c.N(2000, 20000) && !c.Violated(); k++ {
		req := &ua.BrowseRequest{}
		n := 1 + r.Intn(6)
		if r.Intn(2) == 0 {
			req.RequestedMaxReferencesPerNode = uint32(1 + r.Intn(9))
			if r.Intn(10) == 0 {
				req.RequestedMaxReferencesPerNode = []uint32{1 << 31, 0xffffffff, 1000}[r.Intn(3)]
			}
		}
		for i := 0; i < n; i++ {
			req.NodesToBrowse = append(req.NodesToBrowse, g.randDesc(r, ids, ns))
		}
		res, err := s.s.Do(req)
		if err != nil {
			c.Violate("service", "browse: %v", err)
			return
		}
		br, ok := res.(*ua.BrowseResponse)
		if !ok || len(br.Results) != n {
			c.Violate("service", "browse of %d nodes answered with %T", n, res)
			return
		}
		got := make([][]string, n)
		cps := make([]ua.ByteString, n)
		st := make([]ua.StatusCode, n)
		max := int(req.RequestedMaxReferencesPerNode)
		addPiece := func(i int, x ua.BrowseResult, what string) {
			for _, rd := range x.References {
				got[i] = append(got[i], refKey(uris, rd))
			}
			cps[i], st[i] = x.ContinuationPoint, x.StatusCode
			if max > 0 && len(x.References) > max {
				c.Violate("limit", "%s returned %d references with a limit of %d", what, len(x.References), max)
			}
			if x.ContinuationPoint != "" && max == 0 {
				c.Violate("limit", "%s returned a continuation point without a limit", what)
			}
			if x.ContinuationPoint != "" && len(x.References) == 0 {
				c.Violate("limit", "%s returned a continuation point and no references", what)
			}
		}
		for i, x := range br.Results {
			addPiece(i, x, "browse")
		}
		abandoned := make([]bool, n)
		for round := 0; round < 10000; round++ {
			var idx []int
			var pts []ua.ByteString
			for i := range cps {
				if cps[i] != "" && st[i] == ua.Good && (r.Intn(3) > 0 || round > 50) {
					idx = append(idx, i)
					pts = append(pts, cps[i])
				}
			}
			live := false
			for i := range cps {
				live = live || cps[i] != "" && st[i] == ua.Good
			}
			if !live {
				break
			}
			if len(pts) == 0 {
				continue
			}
			r.Shuffle(len(idx), func(a, b int) { idx[a], idx[b] = idx[b], idx[a]; pts[a], pts[b] = pts[b], pts[a] })
			release := r.Intn(25) == 0
			nres, err := s.s.Do(&ua.BrowseNextRequest{ContinuationPoints: pts, ReleaseContinuationPoints: release})
			if err != nil {
				c.Violate("service", "browse next: %v", err)
				return
			}
			nr, ok := nres.(*ua.BrowseNextResponse)
			if !ok || len(nr.Results) != len(pts) {
				c.Violate("service", "browse next of %d points answered with %T", len(pts), nres)
				return
			}
			if release {
				for q, x := range nr.Results {
					if x.StatusCode.IsBad() || len(x.References) > 0 || x.ContinuationPoint != "" {
						c.Violate("release", "releasing a continuation point gives %#x, %d references", uint32(x.StatusCode), len(x.References))
					}
					cps[idx[q]], abandoned[idx[q]] = "", true
				}
			} else {
				for q, x := range nr.Results {
					if x.StatusCode != ua.Good {
						c.Violate("next", "continuing a browse gives %#x", uint32(x.StatusCode))
					}
					addPiece(idx[q], x, "browse next")
				}
			}
			c.Count("continuations", len(pts))
			// used or released points are gone
			if r.Intn(3) == 0 {
				again, err := s.s.Do(&ua.BrowseNextRequest{ContinuationPoints: pts})
				if err != nil {
					c.Violate("service", "browse next: %v", err)
					return
				}
				for q, x := range again.(*ua.BrowseNextResponse).Results {
					if x.StatusCode != ua.BadContinuationPointInvalid || len(x.References) > 0 {
						c.Violate("reuse", "a continuation point already used or released gives status %#x and %d references", uint32(x.StatusCode), len(x.References))
					}
					_ = q
				}
			}
		}
		for i, d := range req.NodesToBrowse {
			wantSt, want := g.expectBrowse(nm, s.user, d)
			sig := fmt.Sprintf("%s/%v/%d/%v/%v/%d/%d/%d", s.user, d.NodeID, d.BrowseDirection, d.ReferenceTypeID, d.IncludeSubtypes, d.NodeClassMask, d.ResultMask, max)
			c.Eval(sig)
			if st[i] != wantSt {
				c.Violate("status", "user %q browsing %+v gives status %#x, expected %#x", s.user, d, uint32(st[i]), uint32(wantSt))
				continue
			}
			sort.Strings(got[i])
			if abandoned[i] {
				if !subMultiset(got[i], want) {
					c.Violate("references", "user %q browsing %+v limit %d gave before release:\n got %s\nwant subset of %s", s.user, d, max, strings.Join(got[i], "\n  "), strings.Join(want, "\n  "))
				}
				continue
			}
			if strings.Join(got[i], "\n") != strings.Join(want, "\n") {
				miss, extra := diffSorted(want, got[i])
				c.Violate("references", "user %q browsing %+v limit %d: %d references, expected %d; missing %q, unexpected %q", s.user, d, max, len(got[i]), len(want), miss, extra)
			}
			c.Sample("browse", map[string]any{"user": s.user, "desc": fmt.Sprintf("%+v", d), "references": len(want), "limit": max})
		}
	}
}

func subMultiset(a, b []string) bool {
	m := map[string]int{}
	for _, x := range b {
		m[x]++
	}
	for _, x := range a {
		if m[x]--; m[x] < 0 {
			return false
		}
	}
	return true
}

func diffSorted(want, got []string) (miss, extra []string) {
	m := map[string]int{}
	for _, x := range want {
		m[x]++
	}
	for _, x := range got {
		m[x]--
	}
	for k, n := range m {
		if n > 0 {
			miss = append(miss, k)
		} else if n < 0 {
			extra = append(extra, k)
		}
	}
	if len(miss) > 5 {
		miss = miss[:5]
	}
	if len(extra) > 5 {
		extra = extra[:5]
	}
	return
}

// b01Points: ownership and capacity of continuation points.
func b01Points(c *Ctx, w *World, g *graph, ss []*bSession, r *rand.Rand) {
	capacity := int(w.Srv.ServerCapabilities().MaxBrowseContinuationPoints)
	for round := 0; round < c.N(10, 100) && !c.Violated(); round++ {
		a, b := ss[r.Intn(len(ss))], ss[r.Intn(len(ss))]
		if a == b {
			continue
		}
		// take as many points as possible, then one more must be refused, and a release must free one
		var pts []ua.ByteString
		for i := 0; i < capacity+2; i++ {
			res, err := a.s.Do(&ua.BrowseRequest{RequestedMaxReferencesPerNode: 1, NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServer, BrowseDirection: ua.BrowseDirectionBoth, ResultMask: 63}}})
			if err != nil {
				c.Violate("service", "browse: %v", err)
				return
			}
			x := res.(*ua.BrowseResponse).Results[0]
			switch {
			case x.StatusCode == ua.Good && x.ContinuationPoint != "":
				pts = append(pts, x.ContinuationPoint)
			case x.StatusCode != ua.BadNoContinuationPoints:
				c.Violate("capacity", "browse with limit 1 gives %#x without a continuation point", uint32(x.StatusCode))
			}
		}
		if len(pts) != capacity {
			c.Violate("capacity", "%d continuation points could be taken, the server advertises %d", len(pts), capacity)
		}
		seen := map[ua.ByteString]bool{}
		for _, p := range pts {
			if seen[p] {
				c.Violate("unique", "continuation point %x handed out twice", string(p))
			}
			seen[p] = true
		}
		// another session cannot use or release them (unless it holds an equal one itself: it holds none)
		res, err := b.s.Do(&ua.BrowseNextRequest{ContinuationPoints: pts, ReleaseContinuationPoints: r.Intn(2) == 0})
		if err != nil {
			c.Violate("service", "browse next: %v", err)
			return
		}
		for _, x := range res.(*ua.BrowseNextResponse).Results {
			if x.StatusCode != ua.BadContinuationPointInvalid || len(x.References) > 0 {
				c.Violate("foreign", "a continuation point of another session gives %#x and %d references", uint32(x.StatusCode), len(x.References))
			}
		}
		var junk []ua.ByteString
		for i := 0; i < 9; i++ {
			bs := make([]byte, 1+r.Intn(9))
			r.Read(bs)
			junk = append(junk, ua.ByteString(bs))
		}
		junk = append(junk, pts[0][:len(pts[0])-1], pts[0]+"\x00", pts[0]+pts[0])
		res, err = a.s.Do(&ua.BrowseNextRequest{ContinuationPoints: junk})
		if err != nil {
			c.Violate("junk", "browse next with invalid points: %v", err)
			return
		}
		for i, x := range res.(*ua.BrowseNextResponse).Results {
			if !seen[junk[i]] && (x.StatusCode != ua.BadContinuationPointInvalid || len(x.References) > 0) {
				c.Violate("junk", "invalid continuation point %x gives %#x and %d references", string(junk[i]), uint32(x.StatusCode), len(x.References))
			}
		}
		// still usable by the owner, in random order; then released
		r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		half := pts[:len(pts)/2]
		res, err = a.s.Do(&ua.BrowseNextRequest{ContinuationPoints: half})
		if err != nil {
			c.Violate("service", "browse next: %v", err)
			return
		}
		var rel []ua.ByteString
		for _, x := range res.(*ua.BrowseNextResponse).Results {
			if x.StatusCode != ua.Good || len(x.References) != 1 {
				c.Violate("next", "continuing gives %#x and %d references", uint32(x.StatusCode), len(x.References))
			}
			if x.ContinuationPoint != "" {
				rel = append(rel, x.ContinuationPoint)
			}
		}
		rel = append(rel, pts[len(pts)/2:]...)
		res, err = a.s.Do(&ua.BrowseNextRequest{ContinuationPoints: rel, ReleaseContinuationPoints: true})
		if err != nil {
			c.Violate("service", "browse next: %v", err)
			return
		}
		for _, x := range res.(*ua.BrowseNextResponse).Results {
			if x.StatusCode.IsBad() {
				c.Violate("release", "release gives %#x", uint32(x.StatusCode))
			}
		}
		c.Eval(fmt.Sprintf("points/%d", round))
	}
}
