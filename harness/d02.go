package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("D02", &check{run: runD02, minEvals: 5000, minDistinct: 2000,
		rule: "distinct (variable type, rank, operation, index range, value, status) tuples judged against a reference model of the variable table, plus every attribute of every sampled node against the node object"})
}

// valueShape returns the built-in type number and rank of a variant value (0 = null).
func valueShape(v ua.Variant) (num byte, rank int) {
	if v == nil {
		return 0, 0
	}
	t := reflect.TypeOf(v)
	for t.Kind() == reflect.Slice && builtinNumber(t) == 0 {
		t = t.Elem()
		rank++
	}
	if n := builtinNumber(t); n != 0 {
		return n, rank
	}
	if t.Implements(tNodeID) {
		return 17, rank
	}
	return 22, rank
}

// nullID tells whether a value is a null NodeID, which is transported as a null Variant.
func nullID(v ua.Variant) bool {
	switch x := v.(type) {
	case ua.NodeIDNumeric:
		return x.NamespaceIndex == 0 && x.ID == 0
	case ua.NodeIDString:
		return x.NamespaceIndex == 0 && x.ID == ""
	case ua.NodeIDOpaque:
		return x.NamespaceIndex == 0 && x.ID == ""
	case ua.NodeIDGUID:
		return x == ua.NodeIDGUID{}
	}
	return false
}

type modelVar struct {
	node   *server.VariableNode
	id     ua.NodeID
	name   string
	dt     ua.NodeID
	types  map[byte]bool // accepted built-in types, nil = all
	loose  bool          // structure subtypes are not judged
	rank   int32
	cur    ua.Variant
	status ua.StatusCode
	wrote  [2]time.Time // window of the last write
	ownTS  bool
}

func (m *modelVar) rankOK(r int) bool {
	switch m.rank {
	case -2:
		return true
	case -3:
		return r <= 1
	case -1:
		return r == 0
	case 0:
		return r >= 1
	}
	return int(m.rank) == r
}

const (
	mustRefuse = iota
	mustAccept
	either
)

var reRange = regexp.MustCompile(`^\d+(:\d+)?$`)

// parseRange: ok=false when malformed.
func parseRange(s string) (rs [][2]int, ok bool) {
	for _, p := range strings.Split(s, ",") {
		if !reRange.MatchString(p) {
			return nil, false
		}
		ab := strings.Split(p, ":")
		a, err := strconv.Atoi(ab[0])
		if err != nil || a > 1<<31-1 {
			return nil, false
		}
		b := a
		if len(ab) == 2 {
			if b, err = strconv.Atoi(ab[1]); err != nil || b > 1<<31-1 || b <= a {
				return nil, false
			}
		}
		rs = append(rs, [2]int{a, b})
	}
	return rs, true
}

// indexed views strings and byte strings as slices.
func indexed(v ua.Variant) (reflect.Value, func(reflect.Value) ua.Variant, bool) {
	switch x := v.(type) {
	case string:
		return reflect.ValueOf([]rune(x)), func(r reflect.Value) ua.Variant { return string(r.Interface().([]rune)) }, true
	case ua.ByteString:
		return reflect.ValueOf([]byte(x)), func(r reflect.Value) ua.Variant { return ua.ByteString(r.Interface().([]byte)) }, true
	case nil:
		return reflect.Value{}, nil, false
	}
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Slice {
		return r, nil, false
	}
	return r, func(r reflect.Value) ua.Variant { return r.Interface() }, true
}

// subRange: verdict for reading v with rng, and the value if accepted.
func subRange(v ua.Variant, rng string) (int, ua.Variant) {
	rs, ok := parseRange(rng)
	if !ok {
		return mustRefuse, nil
	}
	x, back, ok := indexed(v)
	if !ok {
		return mustRefuse, nil
	}
	_, rank := valueShape(v)
	if rank < 1 {
		rank = 1
	}
	if len(rs) != rank {
		if num, _ := valueShape(v); num == 12 || num == 15 {
			return either, nil // sub-string ranges
		}
		return mustRefuse, nil
	}
	verdict := mustAccept
	if rank > 1 {
		verdict = either // multi-dimensional ranges need not be supported, but must not return anything else
	}
	var cut func(x reflect.Value, d int) (reflect.Value, bool)
	cut = func(x reflect.Value, d int) (reflect.Value, bool) {
		a, b := rs[d][0], rs[d][1]+1
		if a >= x.Len() {
			return x, false
		}
		if b > x.Len() {
			b = x.Len()
		}
		if d == rank-1 {
			return x.Slice(a, b), true
		}
		out := reflect.MakeSlice(x.Type(), 0, b-a)
		for i := a; i < b; i++ {
			e, ok := cut(x.Index(i), d+1)
			if !ok {
				return x, false
			}
			out = reflect.Append(out, e)
		}
		return out, true
	}
	out, ok := cut(x, 0)
	if !ok {
		return mustRefuse, nil
	}
	return verdict, back(out)
}

// putRange: verdict for writing val into cur at rng.
func putRange(cur, val ua.Variant, rng string) (int, ua.Variant) {
	rs, ok := parseRange(rng)
	if !ok {
		return mustRefuse, nil
	}
	if val == nil || cur == nil || reflect.TypeOf(cur) != reflect.TypeOf(val) {
		return mustRefuse, nil
	}
	x, back, ok := indexed(cur)
	if !ok {
		return mustRefuse, nil
	}
	_, rank := valueShape(cur)
	if rank < 1 {
		rank = 1
	}
	if len(rs) != 1 || rank != 1 {
		return either, nil
	}
	y, _, _ := indexed(val)
	a, b := rs[0][0], rs[0][1]+1
	if a >= x.Len() || y.Len() != b-a && (b <= x.Len() || y.Len() != x.Len()-a) {
		return mustRefuse, nil
	}
	verdict := mustAccept
	if b > x.Len() {
		if y.Len() == b-a {
			return mustRefuse, nil // would write past the end
		}
		verdict = either
		b = x.Len()
	}
	out := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
	reflect.Copy(out, x)
	reflect.Copy(out.Slice(a, b), y)
	return verdict, back(out)
}

func randRange(r *rand.Rand, n int) string {
	one := func() string {
		k := n + 2
		a, b := r.Intn(k), r.Intn(k)
		switch r.Intn(8) {
		case 0, 1:
			return strconv.Itoa(a)
		case 2:
			return []string{"a", "-1", "1:", ":2", "1-2", "2:1", "1:1", "99999999999", "0:99999999999", "1:2:3", " 1", "1 ", "0x1", "", "2147483648", "0:2147483647", "4294967296", "4294967297", "-1:2", "1.0", "0:-1"}[r.Intn(21)]
		default:
			if a > b {
				a, b = b, a
			}
			if a == b {
				b++
			}
			return fmt.Sprintf("%d:%d", a, b)
		}
	}
	s := one()
	for r.Intn(6) == 0 {
		s += "," + one()
	}
	if s == "" {
		s = "0"
	}
	return s
}

func runD02(c *Ctx) {
	w := newWorld(c, WorldOpts{})
	for _, st := range registeredTypes() {
		if st.Typ.Kind() == reflect.Struct && st.Typ.Size() < 120 {
			embeddable = append(embeddable, st)
		}
	}
	g := &gen{r: c.Rng("d02"), interop: true, maxDep: 3, maxLen: 6}
	r := g.r
	var vars []*modelVar
	rankName := map[int32]string{-3: "ScalarOr1D", -2: "Any", -1: "Scalar", 0: "1+D", 1: "1D", 2: "2D", 3: "3D"}
	naturalRank := func(k int32) int {
		switch k {
		case -3, -1, -2:
			return 0
		case 0:
			return 1
		}
		return int(k)
	}
	add := func(name string, dt ua.NodeID, types map[byte]bool, loose bool, rank int32, t reflect.Type) {
		var v ua.Variant
		for i := 0; i < 50 && v == nil; i++ {
			v = g.variantOf(t, naturalRank(rank), 3)
		}
		m := &modelVar{name: name + "/" + rankName[rank], dt: dt, types: types, loose: loose, rank: rank, cur: v}
		m.wrote[0] = time.Now()
		m.node = w.addVar(VarSpec{Name: "D02." + m.name, Value: v, DataType: dt, Rank: rank, Rank0: rank == 0})
		m.wrote[1] = time.Now()
		m.id = ua.NewNodeIDString(w.ensureNS(), "D02."+m.name)
		vars = append(vars, m)
	}
	num := func(ns ...byte) map[byte]bool {
		m := map[byte]bool{}
		for _, n := range ns {
			m[n] = true
		}
		return m
	}
	for i, t := range builtinTypes {
		n := byte(i + 1)
		types := num(n)
		if n == 24 {
			types = nil
		}
		for _, rank := range []int32{-3, -2, -1, 0, 1, 2, 3} {
			add(typeName(t), ua.NewNodeIDNumeric(0, uint32(n)), types, false, rank, t)
		}
	}
	for _, rank := range []int32{-1, 1} {
		add("ServerState", ua.DataTypeIDServerState, num(6), false, rank, reflect.TypeOf(int32(0)))
		add("UtcTime", ua.DataTypeIDUtcTime, num(13), false, rank, tTime)
		add("Duration", ua.DataTypeIDDuration, num(11), false, rank, reflect.TypeOf(float64(0)))
		add("LocaleID", ua.DataTypeIDLocaleID, num(12), false, rank, reflect.TypeOf(""))
		add("Number", ua.DataTypeIDNumber, num(2, 3, 4, 5, 6, 7, 8, 9, 10, 11), false, rank, reflect.TypeOf(float64(0)))
		add("Integer", ua.DataTypeIDInteger, num(2, 4, 6, 8), false, rank, reflect.TypeOf(int32(0)))
		add("UInteger", ua.DataTypeIDUInteger, num(3, 5, 7, 9), false, rank, reflect.TypeOf(uint16(0)))
		add("Argument", ua.DataTypeIDArgument, num(22), true, rank, tExtObj)
		add("Image", ua.DataTypeIDImagePNG, num(15), false, rank, tByteStr)
	}
	s, err := w.RawSession(raw.None, raw.ModeNone)
	if err != nil {
		c.Inconclusive("session: %v", err)
		return
	}
	defer s.Close()
	defer w.Srv.Close()

	// judge compares a read result with the model.
	judge := func(m *modelVar, dv ua.DataValue, rng string, ts ua.TimestampsToReturn, what string) {
		want, verdict := m.cur, mustAccept
		if rng != "" {
			verdict, want = subRange(m.cur, rng)
		}
		sig := fmt.Sprintf("r/%s/%q/%d/%s", m.name, rng, ts, dumpAny(want))
		c.Eval(sig)
		bad := dv.StatusCode.IsBad() && !(rng == "" || dv.StatusCode == m.status)
		switch {
		case verdict == mustRefuse:
			if !dv.StatusCode.IsBad() || rng != "" && dv.Value != nil {
				c.Violate("read-range", "%s: reading range %q of %s gives %s status %#x, expected a bad status", what, rng, clip(dumpAny(m.cur)), clip(dumpAny(dv.Value)), uint32(dv.StatusCode))
			}
			return
		case verdict == either && bad:
			return
		case verdict == either && want == nil:
			return
		}
		if dumpAny(dv.Value) != dumpAny(want) || dv.StatusCode != m.status {
			c.Violate("read-value", "%s: reading %s range %q gives %s status %#x, expected %s status %#x (whole value %s)", what, m.name, rng, clip(dumpAny(dv.Value)), uint32(dv.StatusCode), clip(dumpAny(want)), uint32(m.status), clip(dumpAny(m.cur)))
		}
		wantSrc := ts == ua.TimestampsToReturnSource || ts == ua.TimestampsToReturnBoth
		wantSrv := ts == ua.TimestampsToReturnServer || ts == ua.TimestampsToReturnBoth
		if dv.SourceTimestamp.IsZero() == wantSrc {
			c.Violate("timestamps", "%s: timestampsToReturn %d gives source timestamp %v", m.name, ts, dv.SourceTimestamp)
		}
		if dv.ServerTimestamp.IsZero() == wantSrv {
			c.Violate("timestamps", "%s: timestampsToReturn %d gives server timestamp %v", m.name, ts, dv.ServerTimestamp)
		}
		if wantSrc && !m.ownTS && (dv.SourceTimestamp.Before(m.wrote[0].Add(-time.Millisecond)) || dv.SourceTimestamp.After(m.wrote[1].Add(time.Millisecond))) {
			c.Violate("timestamps", "%s: source timestamp %v of a value written between %v and %v", m.name, dv.SourceTimestamp, m.wrote[0], m.wrote[1])
		}
	}
	pickVars := func(n int) []*modelVar {
		idx := r.Perm(len(vars))
		if n > len(idx) {
			n = len(idx)
		}
		out := make([]*modelVar, n)
		for i := range out {
			out[i] = vars[idx[i]]
		}
		return out
	}
	rangeLen := func(m *modelVar) int {
		x, _, ok := indexed(m.cur)
		if ok {
			return x.Len()
		}
		return 3
	}
	readBatch := func(ms []*modelVar, ranges bool, what string) bool {
		ts := ua.TimestampsToReturn(r.Intn(4))
		req := &ua.ReadRequest{TimestampsToReturn: ts, MaxAge: float64(r.Intn(3) * 1000)}
		type slot struct {
			m   *modelVar
			rng string
			bad string
		}
		var slots []slot
		for _, m := range ms {
			sl := slot{m: m}
			if ranges && r.Intn(2) == 0 {
				sl.rng = randRange(r, rangeLen(m))
			}
			rv := ua.ReadValueID{NodeID: m.id, AttributeID: ua.AttributeIDValue, IndexRange: sl.rng}
			if ranges && r.Intn(12) == 0 {
				switch r.Intn(4) {
				case 0:
					rv.NodeID, sl.bad = ua.NewNodeIDString(w.ensureNS(), "absent"), "unknown node"
				case 1:
					rv.AttributeID, sl.bad = []uint32{0, 28, 100, 0xffffffff, ua.AttributeIDIsAbstract, ua.AttributeIDExecutable, ua.AttributeIDEventNotifier, ua.AttributeIDSymmetric}[r.Intn(8)], "attribute"
				case 2:
					rv.NodeID, sl.bad = nil, "null node"
				case 3:
					rv.AttributeID, rv.IndexRange, sl.bad = ua.AttributeIDBrowseName, "0:1", "range on non-array attribute"
				}
			}
			req.NodesToRead = append(req.NodesToRead, rv)
			slots = append(slots, sl)
		}
		res, err := s.Do(req)
		if err != nil {
			c.Violate("read-service", "read of %d nodes failed: %v", len(slots), err)
			return false
		}
		rr, ok := res.(*ua.ReadResponse)
		if !ok || len(rr.Results) != len(slots) {
			c.Violate("read-service", "read of %d nodes answered with %T", len(slots), res)
			return false
		}
		for i, sl := range slots {
			if sl.bad != "" {
				if dv := rr.Results[i]; !dv.StatusCode.IsBad() || dv.Value != nil {
					c.Violate("read-refuse", "reading with %s (%v) gives %s status %#x", sl.bad, req.NodesToRead[i], clip(dumpAny(dv.Value)), uint32(dv.StatusCode))
				}
				c.Eval("bad/" + sl.bad + "/" + sl.m.name)
				continue
			}
			judge(sl.m, rr.Results[i], sl.rng, ts, what)
		}
		return true
	}
	if !readBatch(vars, false, "initial") {
		return
	}
	for k := 0; k < c.N(1500, 20000) && !c.Violated(); k++ {
		if r.Intn(3) == 0 {
			if !readBatch(pickVars(1+r.Intn(30)), true, "read") {
				return
			}
			continue
		}
		ms := pickVars(1 + r.Intn(12))
		req := &ua.WriteRequest{}
		type plan struct {
			verdict int
			next    ua.Variant
			status  ua.StatusCode
			ownTS   bool
			refuse  bool
			desc    string
		}
		var plans []plan
		for _, m := range ms {
			var val ua.Variant
			switch r.Intn(10) {
			case 0: // same type as some other variable
				val = vars[r.Intn(len(vars))].cur
			case 1:
				val = nil
			case 2, 3: // right type, other rank
				t := reflect.TypeOf("")
				if n, _ := valueShape(m.cur); n > 0 {
					t = builtinTypes[n-1]
				}
				val = g.variantOf(t, r.Intn(4), 3)
			case 4:
				val = g.variant(3)
			default: // well-typed
				n, rk := valueShape(m.cur)
				t := reflect.TypeOf("")
				if n > 0 {
					t = builtinTypes[n-1]
				}
				val = g.variantOf(t, rk, 3)
			}
			rng := ""
			if r.Intn(3) == 0 {
				rng = randRange(r, rangeLen(m))
				// often with a value of the addressed length
				if rs, ok := parseRange(rng); ok && len(rs) == 1 && r.Intn(4) > 0 {
					n := rs[0][1] - rs[0][0] + 1
					if n > 12 {
						n = 12
					}
					if x, _, ok := indexed(m.cur); ok && r.Intn(2) == 0 && rs[0][0] < x.Len() && rs[0][1] >= x.Len() {
						n = x.Len() - rs[0][0]
					}
					switch m.cur.(type) {
					case string:
						val = strings.Repeat("é", n)
					case ua.ByteString:
						val = ua.ByteString(strings.Repeat("\xfe", n))
					default:
						if nn, rk := valueShape(m.cur); rk == 1 && nn > 0 {
							val = g.matrix(builtinTypes[nn-1], []int{n}, 3).Interface()
						}
					}
				}
			}
			st := ua.Good
			if r.Intn(6) == 0 {
				st = []ua.StatusCode{ua.UncertainInitialValue, ua.BadSensorFailure, ua.GoodLocalOverride}[r.Intn(3)]
			}
			wv := ua.WriteValue{NodeID: m.id, AttributeID: ua.AttributeIDValue, IndexRange: rng, Value: ua.DataValue{Value: val, StatusCode: st}}
			p := plan{status: st, next: val}
			if r.Intn(10) == 0 {
				wv.Value.SourceTimestamp = time.Now().Add(-time.Hour)
				p.ownTS = true
			}
			n, rk := valueShape(val)
			nul := dumpAny(val) == dumpAny(nil) || nullID(val)
			if nul {
				p.next = nil
			}
			okType := m.types == nil || m.types[n]
			switch {
			case nul:
				p.verdict = either
			case m.types != nil && m.types[3] && len(m.types) == 1 && m.rank == 1 && n == 15 && rk == 0, m.types != nil && m.types[15] && m.rank == -1 && n == 3 && rk == 1:
				p.verdict = either // byte string / byte array conversion
				if x, ok := val.(ua.ByteString); ok {
					p.next = []byte(x)
				} else if x, ok := val.([]byte); ok {
					p.next = ua.ByteString(x)
				}
				val = p.next
			case !okType || !m.rankOK(rk):
				p.verdict = mustRefuse
			case (n == 23 || n == 25) || m.loose || n == 24 && m.types != nil:
				p.verdict = either
			default:
				p.verdict = mustAccept
			}
			if rng != "" && p.verdict != mustRefuse {
				v, next := putRange(m.cur, val, rng)
				if v == mustRefuse || p.verdict == mustAccept {
					p.verdict = v
				}
				p.next = next
				if v == either && next == nil {
					p.next = nil
				}
			}
			if r.Intn(15) == 0 {
				p.verdict, p.refuse = mustRefuse, true
				switch r.Intn(3) {
				case 0:
					wv.NodeID = ua.NewNodeIDString(w.ensureNS(), "absent")
				case 1:
					wv.AttributeID = []uint32{0, 1, 2, 3, 4, 5, 14, 15, 17, 28, 1000}[r.Intn(11)]
				case 2:
					wv.NodeID = ua.ObjectIDServer
				}
			}
			p.desc = fmt.Sprintf("write %s[%q] = %s status %#x over %s", m.name, rng, clip(dumpAny(wv.Value.Value)), uint32(st), clip(dumpAny(m.cur)))
			plans = append(plans, p)
			req.NodesToWrite = append(req.NodesToWrite, wv)
		}
		olds, dumps := make([]ua.DataValue, len(ms)), make([]string, len(ms))
		for i, m := range ms {
			olds[i] = m.node.Value()
			dumps[i] = dumpAny(olds[i].Value)
		}
		t0 := time.Now()
		res, err := s.Do(req)
		t1 := time.Now()
		for i := range ms {
			if now := dumpAny(olds[i].Value); now != dumps[i] {
				c.Violate("alias", "%s changes the value the application had obtained before: %s is now %s", plans[i].desc, clip(dumps[i]), clip(now))
			}
		}
		if err != nil {
			c.Violate("write-service", "write failed: %v", err)
			return
		}
		wr, ok := res.(*ua.WriteResponse)
		if !ok || len(wr.Results) != len(ms) {
			c.Violate("write-service", "write of %d nodes answered with %T", len(ms), res)
			return
		}
		for i, m := range ms {
			p := plans[i]
			good := !wr.Results[i].IsBad()
			c.Eval(fmt.Sprintf("w/%v/%s", good, p.desc))
			if good {
				c.Count("writes_accepted", 1)
			} else {
				c.Count("writes_refused", 1)
			}
			switch {
			case p.verdict == mustRefuse && good:
				c.Violate("write-accepts", "%s succeeds, expected a bad status", p.desc)
			case p.verdict == mustAccept && !good:
				c.Violate("write-refuses", "%s fails with %#x, expected success", p.desc, uint32(wr.Results[i]))
			}
			if good {
				if p.verdict == either && req.NodesToWrite[i].IndexRange != "" && p.next == nil {
					// outcome not modelled: adopt what is there
					m.cur, m.status, m.ownTS = m.node.Value().Value, m.node.Value().StatusCode, true
					continue
				}
				m.cur, m.status, m.wrote, m.ownTS = p.next, p.status, [2]time.Time{t0, t1}, p.ownTS
			}
			c.Sample("write", map[string]any{"op": p.desc, "result": fmt.Sprintf("%#x", uint32(wr.Results[i]))})
		}
		if !readBatch(ms, false, "after write") {
			return
		}
		if k%20 == 0 && !readBatch(vars, false, "all") {
			return
		}
	}
	d02Attributes(c, w, s)
	d02Handlers(c, w, s)
	d02Service(c, w, s)
}

// d02Attributes reads every attribute of a sample of all nodes and compares with the node objects.
func d02Attributes(c *Ctx, w *World, s *raw.Client) {
	nm := w.Srv.NamespaceManager()
	ids := allNodeIDs(w)
	r := c.Rng("attr")
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	if n := c.N(1500, len(ids)); len(ids) > n {
		ids = ids[:n]
	}
	// the live server objects always
	for _, id := range allNodeIDs(w) {
		if k, ok := id.(ua.NodeIDNumeric); ok && k.NamespaceIndex == 0 && (k.ID >= 2253 && k.ID <= 2300 || k.ID >= 3704 && k.ID <= 3720 || k.ID >= 11492 && k.ID <= 11730) {
			ids = append(ids, id)
		}
	}
	for _, id := range ids {
		n, ok := nm.FindNode(id)
		if !ok {
			continue
		}
		req := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth}
		for a := uint32(0); a <= 28; a++ {
			req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: id, AttributeID: a})
		}
		res, err := s.Do(req)
		if err != nil {
			c.Violate("attr", "reading attributes of %v: %v", id, err)
			return
		}
		for a, dv := range res.(*ua.ReadResponse).Results {
			want, judge := attrOf(n, uint32(a))
			if !judge {
				continue
			}
			c.Eval(fmt.Sprintf("attr/%v/%d", id, a))
			if want == nil {
				if !dv.StatusCode.IsBad() {
					c.Violate("attr", "attribute %d of %v (class %d) reads as %s, expected a bad status", a, id, n.NodeClass(), dumpAny(dv.Value))
				}
				continue
			}
			if dv.StatusCode.IsBad() || dumpAny(dv.Value) != dumpAny(want) {
				c.Violate("attr", "attribute %d of %v reads as %s (%#x), node has %s", a, id, clip(dumpAny(dv.Value)), uint32(dv.StatusCode), clip(dumpAny(want)))
			}
		}
	}
}

// attrOf returns the attribute as the node object has it; nil = the class does not have it.
func attrOf(n server.Node, a uint32) (v ua.Variant, judge bool) {
	switch a {
	case ua.AttributeIDNodeID:
		return n.NodeID(), true
	case ua.AttributeIDNodeClass:
		return int32(n.NodeClass()), true
	case ua.AttributeIDBrowseName:
		return n.BrowseName(), true
	case ua.AttributeIDDisplayName:
		return n.DisplayName(), true
	case ua.AttributeIDDescription:
		return n.Description(), true
	case ua.AttributeIDRolePermissions, ua.AttributeIDUserRolePermissions, ua.AttributeIDDataTypeDefinition, ua.AttributeIDWriteMask, ua.AttributeIDUserWriteMask, ua.AttributeIDAccessRestrictions, ua.AttributeIDAccessLevelEx:
		return nil, false
	case 0, 28:
		return nil, true
	}
	switch x := n.(type) {
	case *server.VariableNode:
		switch a {
		case ua.AttributeIDValue:
			return nil, false
		case ua.AttributeIDDataType:
			return x.DataType(), x.DataType() != nil
		case ua.AttributeIDValueRank:
			return x.ValueRank(), true
		case ua.AttributeIDArrayDimensions:
			return x.ArrayDimensions(), true
		case ua.AttributeIDAccessLevel:
			return x.AccessLevel(), true
		case ua.AttributeIDUserAccessLevel:
			return nil, false
		case ua.AttributeIDMinimumSamplingInterval:
			return x.MinimumSamplingInterval(), true
		case ua.AttributeIDHistorizing:
			return x.Historizing(), true
		}
	case *server.VariableTypeNode:
		switch a {
		case ua.AttributeIDValue:
			return nil, false
		case ua.AttributeIDDataType:
			return x.DataType(), x.DataType() != nil
		case ua.AttributeIDValueRank:
			return x.ValueRank(), true
		case ua.AttributeIDArrayDimensions:
			return x.ArrayDimensions(), true
		case ua.AttributeIDIsAbstract:
			return x.IsAbstract(), true
		}
	case *server.ObjectNode:
		if a == ua.AttributeIDEventNotifier {
			return x.EventNotifier(), true
		}
	case *server.ObjectTypeNode:
		if a == ua.AttributeIDIsAbstract {
			return x.IsAbstract(), true
		}
	case *server.DataTypeNode:
		if a == ua.AttributeIDIsAbstract {
			return x.IsAbstract(), true
		}
	case *server.ReferenceTypeNode:
		switch a {
		case ua.AttributeIDIsAbstract:
			return x.IsAbstract(), true
		case ua.AttributeIDSymmetric:
			return x.Symmetric(), true
		case ua.AttributeIDInverseName:
			return x.InverseName(), true
		}
	case *server.MethodNode:
		switch a {
		case ua.AttributeIDExecutable:
			return x.Executable(), true
		case ua.AttributeIDUserExecutable:
			return nil, false
		}
	case *server.ViewNode:
		switch a {
		case ua.AttributeIDContainsNoLoops:
			return x.ContainsNoLoops(), true
		case ua.AttributeIDEventNotifier:
			return x.EventNotifier(), true
		}
	}
	return nil, true
}

// allNodeIDs walks the references from the root in all directions.
func allNodeIDs(w *World) []ua.NodeID {
	nm := w.Srv.NamespaceManager()
	seen := map[ua.NodeID]bool{}
	q := []ua.NodeID{ua.ObjectIDRootFolder}
	seen[ua.ObjectIDRootFolder] = true
	for i := 0; i < len(q); i++ {
		n, ok := nm.FindNode(q[i])
		if !ok {
			continue
		}
		for _, ref := range n.References() {
			id := ua.ToNodeID(ref.TargetID, nm.NamespaceUris())
			if id != nil && !seen[id] {
				seen[id] = true
				q = append(q, id)
			}
		}
	}
	return q
}

// d02Handlers: value handlers see exactly the request, and their answers are what is returned and stored.
func d02Handlers(c *Ctx, w *World, s *raw.Client) {
	r := c.Rng("handlers")
	v := w.addVar(VarSpec{Name: "D02.handler", Value: int32(0), DataType: ua.DataTypeIDInt32})
	var reads []ua.ReadValueID
	var writes []ua.WriteValue
	var answer ua.DataValue
	var st ua.StatusCode
	v.SetReadValueHandler(func(_ *server.Session, rv ua.ReadValueID) ua.DataValue { reads = append(reads, rv); return answer })
	v.SetWriteValueHandler(func(_ *server.Session, wv ua.WriteValue) (ua.DataValue, ua.StatusCode) {
		writes = append(writes, wv)
		return answer, st
	})
	id := ua.NewNodeIDString(w.ensureNS(), "D02.handler")
	for k := 0; k < c.N(60, 600); k++ {
		reads, writes = nil, nil
		now := time.Now().UTC().Truncate(100)
		answer = ua.NewDataValue(int32(r.Int31()), []ua.StatusCode{ua.Good, ua.BadSensorFailure, ua.UncertainInitialValue}[r.Intn(3)], now, 0, now, 0)
		rng := []string{"", "1", "2:3"}[r.Intn(3)]
		res, err := s.Do(&ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: ua.AttributeIDValue, IndexRange: rng}}})
		if err != nil {
			c.Violate("handler", "read: %v", err)
			return
		}
		got := res.(*ua.ReadResponse).Results[0]
		if len(reads) != 1 || reads[0].NodeID != id || reads[0].IndexRange != rng || dumpAny(got.Value) != dumpAny(answer.Value) || got.StatusCode != answer.StatusCode || !got.SourceTimestamp.Equal(now) {
			c.Violate("handler", "read handler called %d times, answer %v, client received %v", len(reads), answer, got)
		}
		st = []ua.StatusCode{ua.Good, ua.BadOutOfRange, ua.BadNotWritable}[r.Intn(3)]
		before := v.Value()
		val := int32(r.Int31())
		res, err = s.Do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: id, AttributeID: ua.AttributeIDValue, IndexRange: rng, Value: ua.DataValue{Value: val}}}})
		if err != nil {
			c.Violate("handler", "write: %v", err)
			return
		}
		code := res.(*ua.WriteResponse).Results[0]
		if len(writes) != 1 || writes[0].Value.Value != ua.Variant(val) || writes[0].IndexRange != rng || code != st {
			c.Violate("handler", "write handler called %d times, answered %#x, client received %#x", len(writes), uint32(st), uint32(code))
		}
		after := v.Value()
		if st == ua.Good && dumpAny(after.Value) != dumpAny(answer.Value) {
			c.Violate("handler", "write handler stored %v, node has %v", answer, after)
		}
		if st != ua.Good && dumpAny(after.Value) != dumpAny(before.Value) {
			c.Violate("handler", "refused write changed the value from %v to %v", before, after)
		}
		c.Eval(fmt.Sprintf("h/%d", k))
	}
}

// d02Service: request level parameters.
func d02Service(c *Ctx, w *World, s *raw.Client) {
	rv := []ua.ReadValueID{{NodeID: ua.VariableIDServerNamespaceArray, AttributeID: ua.AttributeIDValue}}
	if _, err := s.Do(&ua.ReadRequest{MaxAge: -1, NodesToRead: rv}); err != ua.BadMaxAgeInvalid {
		c.Violate("service", "read with a negative max age: %v", err)
	}
	for _, ts := range []ua.TimestampsToReturn{4, 5, -1, 100} {
		if _, err := s.Do(&ua.ReadRequest{TimestampsToReturn: ts, NodesToRead: rv}); err != ua.BadTimestampsToReturnInvalid {
			c.Violate("service", "read with timestampsToReturn %d: %v", ts, err)
		}
	}
	c.Eval("service")
}
