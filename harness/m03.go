package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("M03", &check{run: runM03, minEvals: 5000, minDistinct: 300,
		rule: "every run of equal samples of every item judged reported or not by a reference filter relative to the last reported value, every report of a sampling item attributed to a trigger, every disabled period observed silent; distinct = distinct (filter, type, change class) and (mode/link history) signatures"})
}

// fStream is a variable whose samples are all known; a sample is identified by its server timestamp.
type fStream struct {
	node   *server.VariableNode
	mu     sync.Mutex
	runs   []ua.DataValue
	start  []time.Time
	byTick map[int64]int
	left   int
	frozen bool
	reads  []time.Time
	gen    func(i int, now time.Time, prev *ua.DataValue) (ua.DataValue, int)
}

func (s *fStream) read(_ *server.Session, _ ua.ReadValueID) ua.DataValue {
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Now().UTC().Round(0)
	if len(s.runs) == 0 || (s.left <= 0 && !s.frozen) {
		var prev *ua.DataValue
		if n := len(s.runs); n > 0 {
			prev = &s.runs[n-1]
		}
		v, hold := s.gen(len(s.runs), now, prev)
		s.left = hold
		s.runs = append(s.runs, v)
		s.start = append(s.start, now)
	}
	s.left--
	for s.byTick[tick100(now)] != 0 {
		now = now.Add(100)
	}
	s.byTick[tick100(now)] = len(s.runs)
	s.reads = append(s.reads, now)
	v := s.runs[len(s.runs)-1]
	v.ServerTimestamp = now
	return v
}

func (w *World) newFStream(name string, dt ua.NodeID, rank int32, zero ua.Variant, gen func(i int, now time.Time, prev *ua.DataValue) (ua.DataValue, int)) *fStream {
	s := &fStream{gen: gen, byTick: map[int64]int{}}
	s.node = w.addVar(VarSpec{Name: name, Value: zero, DataType: dt, Rank: rank})
	s.node.SetReadValueHandler(s.read)
	return s
}

func (s *fStream) freeze() { s.mu.Lock(); s.frozen = true; s.mu.Unlock() }

// numeric walks

type numType struct {
	name string
	id   ua.NodeID
	lo   *big.Float
	hi   *big.Float
	from func(f *big.Float) any // nearest value
}

func bf(x float64) *big.Float { return new(big.Float).SetPrec(200).SetFloat64(x) }

func bfi(i *big.Int) *big.Float { return new(big.Float).SetPrec(200).SetInt(i) }

var numTypes = func() []numType {
	i64 := func(f *big.Float) int64 { i, _ := f.Int64(); return i }
	u64 := func(f *big.Float) uint64 { i, _ := f.Uint64(); return i }
	var out []numType
	add := func(name string, id ua.NodeID, bits uint, signed bool, from func(f *big.Float) any) {
		one := big.NewInt(1)
		lo, hi := big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
		if signed {
			lo = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
			hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		}
		out = append(out, numType{name, id, bfi(lo), bfi(hi), from})
	}
	add("SByte", ua.DataTypeIDSByte, 8, true, func(f *big.Float) any { return int8(i64(f)) })
	add("Byte", ua.DataTypeIDByte, 8, false, func(f *big.Float) any { return uint8(u64(f)) })
	add("Int16", ua.DataTypeIDInt16, 16, true, func(f *big.Float) any { return int16(i64(f)) })
	add("UInt16", ua.DataTypeIDUInt16, 16, false, func(f *big.Float) any { return uint16(u64(f)) })
	add("Int32", ua.DataTypeIDInt32, 32, true, func(f *big.Float) any { return int32(i64(f)) })
	add("UInt32", ua.DataTypeIDUInt32, 32, false, func(f *big.Float) any { return uint32(u64(f)) })
	add("Int64", ua.DataTypeIDInt64, 64, true, func(f *big.Float) any { return i64(f) })
	add("UInt64", ua.DataTypeIDUInt64, 64, false, func(f *big.Float) any { return u64(f) })
	out = append(out, numType{"Float", ua.DataTypeIDFloat, bf(-math.MaxFloat32), bf(math.MaxFloat32), func(f *big.Float) any { x, _ := f.Float32(); return x }})
	out = append(out, numType{"Double", ua.DataTypeIDDouble, bf(-math.MaxFloat64), bf(math.MaxFloat64), func(f *big.Float) any { x, _ := f.Float64(); return x }})
	return out
}()

func toBig(v any) (f *big.Float, special float64, isSpecial bool) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return bfi(big.NewInt(rv.Int())), 0, false
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return bfi(new(big.Int).SetUint64(rv.Uint())), 0, false
	}
	x := rv.Float()
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return nil, x, true
	}
	return bf(x), 0, false
}

func (t numType) step(r *rand.Rand, prev any, d float64) any {
	flt := t.name == "Float" || t.name == "Double"
	if flt && r.Intn(12) == 0 {
		s := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
		if t.name == "Float" {
			return float32(s)
		}
		return s
	}
	p, _, sp := toBig(prev)
	if sp {
		p = bf(float64(r.Intn(10)))
	}
	if r.Intn(15) == 0 {
		p = [](*big.Float){t.lo, t.hi, bf(0), bf(1)}[r.Intn(4)]
		return t.from(p)
	}
	var delta float64
	switch r.Intn(6) {
	case 0:
		delta = d
	case 1:
		delta = d + 1
	case 2:
		delta = d / 2
	case 3:
		delta = 1
	case 4:
		delta = math.Floor(d) * float64(1+r.Intn(3))
	case 5:
		delta = math.Nextafter(d, math.Inf(1))
	}
	if r.Intn(2) == 0 {
		delta = -delta
	}
	q := new(big.Float).SetPrec(200).Add(p, bf(delta))
	if q.Cmp(t.lo) < 0 || q.Cmp(t.hi) > 0 {
		q = p
	}
	if !flt {
		i, _ := q.Int(nil)
		q = bfi(i)
	}
	return t.from(q)
}

type verdict int

const (
	no verdict = iota
	yes
	maybe
)

// beyond: does the difference of two numbers exceed the deadband?
func beyond(a, b any, d float64) verdict {
	x, sx, ix := toBig(a)
	y, sy, iy := toBig(b)
	if ix || iy {
		if ix && iy && (sx == sy || math.IsNaN(sx) && math.IsNaN(sy)) {
			return no
		}
		return yes
	}
	diff := new(big.Float).SetPrec(400).Sub(x, y)
	diff.Abs(diff)
	exact := diff.Cmp(bf(d)) > 0
	// rounding to double precision may decide differently next to the limit
	f, _ := diff.Float64()
	fa, _ := x.Float64()
	fb, _ := y.Float64()
	if (f > d) != exact || (math.Abs(fa-fb) > d) != exact {
		return maybe
	}
	if exact {
		return yes
	}
	return no
}

func valChange(cur, prev ua.Variant, d float64) verdict {
	if cur == nil || prev == nil {
		if cur == prev {
			return no
		}
		return yes
	}
	vc, vp := reflect.ValueOf(cur), reflect.ValueOf(prev)
	if vc.Type() != vp.Type() {
		return yes
	}
	if vc.Kind() == reflect.Slice {
		if vc.Len() != vp.Len() {
			return yes
		}
		out := no
		for i := 0; i < vc.Len(); i++ {
			switch valChange(vc.Index(i).Interface(), vp.Index(i).Interface(), d) {
			case yes:
				return yes
			case maybe:
				out = maybe
			}
		}
		return out
	}
	return beyond(cur, prev, d)
}

func eqVal(a, b ua.Variant) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case float32:
		if y, ok := b.(float32); ok && x != x && y != y {
			return true
		}
	case float64:
		if y, ok := b.(float64); ok && x != x && y != y {
			return true
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			return tick100(x) == tick100(y)
		}
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice && va.Type() == vb.Type() {
		if va.Len() != vb.Len() {
			return false
		}
		for i := 0; i < va.Len(); i++ {
			if !eqVal(va.Index(i).Interface(), vb.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// hasNaN: arrays that contain NaN are compared element by element or as a whole, both are acceptable.
func hasNaN(a ua.Variant) bool {
	v := reflect.ValueOf(a)
	if v.Kind() != reflect.Slice {
		return false
	}
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if e.Kind() == reflect.Float32 || e.Kind() == reflect.Float64 {
			if f := e.Float(); f != f {
				return true
			}
		}
	}
	return false
}

func filterChange(f ua.DataChangeFilter, cur, prev ua.DataValue) verdict {
	if cur.StatusCode != prev.StatusCode {
		return yes
	}
	if f.Trigger == ua.DataChangeTriggerStatus {
		return no
	}
	if f.Trigger == ua.DataChangeTriggerStatusValueTimestamp && !cur.SourceTimestamp.Equal(prev.SourceTimestamp) {
		return yes
	}
	if f.DeadbandType == uint32(ua.DeadbandTypeAbsolute) {
		return valChange(cur.Value, prev.Value, f.DeadbandValue)
	}
	if eqVal(cur.Value, prev.Value) {
		if hasNaN(cur.Value) {
			return maybe
		}
		return no
	}
	return yes
}

type fEpoch struct {
	f      ua.DataChangeFilter
	ts     ua.TimestampsToReturn
	t1, t2 time.Time // request sent, response received
}

type fItem struct {
	h     uint32
	id    uint32
	st    *fStream
	kind  string
	ti    time.Duration
	ep    []fEpoch
	got   []ua.DataValue
	sub   uint32
	num   bool
	since time.Time
}

// change judges a run against the last reported one under the filters that may have applied.
func (it *fItem) change(at time.Time, cur, prev ua.DataValue) (verdict, int) {
	k := 0
	for i, e := range it.ep {
		if i > 0 && at.After(e.t1.Add(-600*time.Millisecond)) && !at.After(e.t2.Add(100*time.Millisecond)) {
			return maybe, i
		}
		if at.After(e.t2) {
			k = i
		}
	}
	return filterChange(it.ep[k].f, cur, prev), k
}

func (it *fItem) judge(c *Ctx) {
	s := it.st
	s.mu.Lock()
	defer s.mu.Unlock()
	bad := func(key, f string, a ...any) {
		c.Violate(key, "%s (item %d, %s, %d filters, first %+v, %d runs, %d reported)", fmt.Sprintf(f, a...), it.h, it.kind, len(it.ep), it.ep[0].f, len(s.runs), len(it.got))
	}
	last := -1
	mustAt := func(j int) bool {
		return j+1 == len(s.runs) || s.start[j+1].Sub(s.start[j]) >= it.ti+margin
	}
	skipped := func(to int) bool {
		for j := last + 1; j < to; j++ {
			if !mustAt(j) || last < 0 {
				continue
			}
			v, k := it.change(s.start[j], s.runs[j], s.runs[last])
			if v == yes {
				bad("not-reported", "value %v (status %v) was not reported after %v (status %v), filter %+v", s.runs[j].Value, s.runs[j].StatusCode, s.runs[last].Value, s.runs[last].StatusCode, it.ep[k].f)
				return false
			}
			c.Eval(fmt.Sprintf("skip/%s/%d/%d/%v/%d", it.kind, it.ep[k].f.Trigger, it.ep[k].f.DeadbandType, it.ep[k].f.DeadbandValue, v))
		}
		return true
	}
	for _, g := range it.got {
		j := s.byTick[tick100(g.ServerTimestamp)] - 1
		if j < 0 {
			bad("invented", "reported %v with server timestamp %v, which is of no sample", g.Value, g.ServerTimestamp)
			return
		}
		r := s.runs[j]
		if !eqVal(g.Value, r.Value) || g.StatusCode != r.StatusCode {
			bad("altered", "reported %v status %v, sampled %v status %v", g.Value, g.StatusCode, r.Value, r.StatusCode)
			return
		}
		if j < last || (j == last && len(it.ep) == 1) {
			bad("order", "run %d reported after run %d", j, last)
			return
		}
		if last < 0 && j > 0 && mustAt(0) {
			bad("first-missing", "the first report is run %d", j)
		}
		if !skipped(j) {
			return
		}
		if last >= 0 {
			v, k := it.change(s.start[j], s.runs[j], s.runs[last])
			if v == no {
				bad("reported", "value %v was reported after %v, filter %+v", s.runs[j], s.runs[last], it.ep[k].f)
				return
			}
			c.Eval(fmt.Sprintf("report/%s/%d/%d/%v/%d", it.kind, it.ep[k].f.Trigger, it.ep[k].f.DeadbandType, it.ep[k].f.DeadbandValue, v))
		}
		// timestamps selected
		src, maybe := it.ep[len(it.ep)-1], len(it.ep) > 1
		if !maybe {
			want := src.ts == ua.TimestampsToReturnBoth || src.ts == ua.TimestampsToReturnSource
			if want != !g.SourceTimestamp.IsZero() || want && tick100(g.SourceTimestamp) != tick100(r.SourceTimestamp) {
				bad("source-timestamp", "source timestamp %v reported, %v sampled, selection %v", g.SourceTimestamp, r.SourceTimestamp, src.ts)
			}
		}
		last = j
	}
	skipped(len(s.runs))
}

func m03Filters(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 })), server.WithMaxSubscriptionCount(200)}})
	defer w.Srv.Close()
	var wg sync.WaitGroup
	n := 0
	for k := 0; k < 4; k++ {
		a := w.AC()
		p := newPublisher(a, 6)
		items := map[uint32]*fItem{}
		var subs []uint32
		for j := 0; j < 3; j++ {
			subs = append(subs, a.createSub(125, 10000, 10, 0, true, 0).SubscriptionID)
		}
		for i := 0; i < 40; i++ {
			n++
			it := m03Item(c, w, a, r, fmt.Sprintf("M03.%d.%d", round, n), uint32(n), subs[r.Intn(3)])
			if it == nil {
				return
			}
			items[it.h] = it
		}
		p.pump()
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer a.Close()
			end := time.Now().Add(time.Duration(c.N(10, 30)) * time.Second)
			for time.Now().Before(end) {
				time.Sleep(time.Duration(200+rr.Intn(400)) * time.Millisecond)
				// change the filter of one item: no other item is affected
				for _, it := range items {
					if it.h%3 != 0 || len(it.ep) > 3 {
						continue
					}
					f := m03Filter(rr, it.num)
					e := fEpoch{f: f, ts: ua.TimestampsToReturnBoth, t1: time.Now()}
					res, err := a.Do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: it.sub, TimestampsToReturn: e.ts, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: it.id, RequestedParameters: ua.MonitoringParameters{ClientHandle: it.h, SamplingInterval: 20, QueueSize: 1000, DiscardOldest: true, Filter: f}}}})
					e.t2 = time.Now()
					if err != nil || res.(*ua.ModifyMonitoredItemsResponse).Results[0].StatusCode != ua.Good {
						c.Violate("modify", "changing a filter failed: %v %v", err, res)
						return
					}
					it.ep = append(it.ep, e)
					c.Count("filter changes", 1)
					break
				}
			}
			for _, it := range items {
				it.st.freeze()
			}
			time.Sleep(1200 * time.Millisecond)
			p.Stop()
			for _, m := range p.Msgs() {
				for _, x := range dataOf(m) {
					it := items[x.ClientHandle]
					if it == nil || it.sub != m.sub {
						c.Violate("wrong-item", "notification for handle %d in subscription %d", x.ClientHandle, m.sub)
						continue
					}
					it.got = append(it.got, x.Value)
				}
			}
			for _, it := range items {
				it.judge(c)
				c.Count("items", 1)
			}
		}()
	}
	wg.Wait()
}

func m03Filter(r *rand.Rand, num bool) ua.DataChangeFilter {
	f := ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(r.Intn(3))}
	if num && r.Intn(3) > 0 {
		f.DeadbandType = uint32(ua.DeadbandTypeAbsolute)
		f.DeadbandValue = []float64{0, 0.5, 1, 2.5, 5, 10, 100, 0.1, 1e18, 1e300}[r.Intn(10)]
	}
	return f
}

func m03Item(c *Ctx, w *World, a *AC, r *rand.Rand, name string, h, sub uint32) *fItem {
	rr := rand.New(rand.NewSource(r.Int63()))
	it := &fItem{h: h, sub: sub}
	var f ua.DataChangeFilter
	status := func() ua.StatusCode {
		if rr.Intn(12) == 0 {
			return []ua.StatusCode{ua.UncertainSubNormal, ua.BadSensorFailure, ua.GoodLocalOverride}[rr.Intn(3)]
		}
		return ua.Good
	}
	mk := func(next func(prev ua.Variant) ua.Variant) func(int, time.Time, *ua.DataValue) (ua.DataValue, int) {
		return func(i int, now time.Time, prev *ua.DataValue) (ua.DataValue, int) {
			var pv ua.Variant
			src := now
			if prev != nil {
				pv = prev.Value
				if rr.Intn(3) == 0 {
					src = prev.SourceTimestamp
				}
			}
			v := next(pv)
			st := status()
			if prev != nil && rr.Intn(4) > 0 {
				st = prev.StatusCode
			}
			return ua.NewDataValue(v, st, src, 0, now, 0), 3 + rr.Intn(3)
		}
	}
	rank := int32(-1)
	var dt ua.NodeID
	var gen func(int, time.Time, *ua.DataValue) (ua.DataValue, int)
	var zero ua.Variant
	switch x := r.Intn(10); {
	case x < 5: // scalar number
		t := numTypes[r.Intn(len(numTypes))]
		it.num, it.kind, dt = true, t.name, t.id
		f = m03Filter(r, true)
		d := f.DeadbandValue
		zero = t.from(bf(5))
		gen = mk(func(p ua.Variant) ua.Variant {
			if p == nil {
				p = t.from(bf(5))
			}
			return t.step(rr, p, d)
		})
	case x < 8: // array of numbers
		t := numTypes[r.Intn(len(numTypes))]
		for t.name == "Byte" { // an array of bytes is a byte string in Go
			t = numTypes[r.Intn(len(numTypes))]
		}
		it.num, it.kind, dt, rank = true, t.name+"[]", t.id, 1
		f = m03Filter(r, true)
		d := f.DeadbandValue
		et := reflect.TypeOf(t.from(bf(1)))
		mkArr := func(n int) reflect.Value {
			v := reflect.MakeSlice(reflect.SliceOf(et), n, n)
			for i := 0; i < n; i++ {
				v.Index(i).Set(reflect.ValueOf(t.from(bf(float64(5 + i)))))
			}
			return v
		}
		zero = mkArr(5).Interface()
		gen = mk(func(p ua.Variant) ua.Variant {
			if p == nil {
				return mkArr(5).Interface()
			}
			old := reflect.ValueOf(p)
			l := old.Len()
			if rr.Intn(10) == 0 {
				l = rr.Intn(8)
			}
			v := mkArr(l)
			reflect.Copy(v, old)
			for k := rr.Intn(3); k > 0 && l > 0; k-- {
				i := rr.Intn(l)
				v.Index(i).Set(reflect.ValueOf(t.step(rr, v.Index(i).Interface(), d)))
			}
			return v.Interface()
		})
	default:
		kinds := []string{"String", "Boolean", "DateTime", "ByteString", "LocalizedText", "Any", "String[]", "Struct"}
		it.kind = kinds[r.Intn(len(kinds))]
		f = m03Filter(r, false)
		pick := func() ua.Variant { return nil }
		switch it.kind {
		case "String":
			dt, zero = ua.DataTypeIDString, ""
			pick = func() ua.Variant { return []string{"", "a", "b", "A", "ä", "a "}[rr.Intn(6)] }
		case "Boolean":
			dt, zero = ua.DataTypeIDBoolean, false
			pick = func() ua.Variant { return rr.Intn(2) == 0 }
		case "DateTime":
			dt, zero = ua.DataTypeIDDateTime, time.Unix(1, 0).UTC()
			pick = func() ua.Variant {
				t := time.Unix(1000000000, int64(rr.Intn(3)*100)).UTC()
				if rr.Intn(2) == 0 {
					t = t.In(time.FixedZone("x", 3600*(1+rr.Intn(3)))) // the same instant
				}
				return t
			}
		case "ByteString":
			dt, zero = ua.DataTypeIDByteString, ua.ByteString("")
			pick = func() ua.Variant { return ua.ByteString([]string{"", "a", "\x00", "\x00\x00", "b"}[rr.Intn(5)]) }
		case "LocalizedText":
			dt, zero = ua.DataTypeIDLocalizedText, ua.NewLocalizedText("", "")
			pick = func() ua.Variant {
				return ua.NewLocalizedText([]string{"", "x", "y"}[rr.Intn(3)], []string{"", "en", "de"}[rr.Intn(3)])
			}
		case "Any":
			dt, zero = ua.DataTypeIDBaseDataType, int32(0)
			pick = func() ua.Variant {
				return []ua.Variant{int32(1), int64(1), float64(1), "1", uint32(1), true, nil, []int32{1}, []int64{1}}[rr.Intn(9)]
			}
		case "String[]":
			dt, zero, rank = ua.DataTypeIDString, []string{}, 1
			pick = func() ua.Variant {
				return [][]string{{}, {"a"}, {"a", "b"}, {"b", "a"}, {"ab"}, {"a", ""}}[rr.Intn(6)]
			}
		case "Struct":
			dt, zero = ua.DataTypeIDStructure, ua.Range{}
			pick = func() ua.Variant {
				return []ua.Variant{ua.Range{Low: 1, High: 2}, ua.Range{Low: 1, High: 3}, ua.EUInformation{UnitID: 1}, ua.EUInformation{UnitID: 2}}[rr.Intn(4)]
			}
		}
		gen = mk(func(p ua.Variant) ua.Variant { return pick() })
	}
	it.st = w.newFStream(name, dt, rank, zero, gen)
	ts := []ua.TimestampsToReturn{ua.TimestampsToReturnServer, ua.TimestampsToReturnBoth}[r.Intn(2)]
	var flt any = f
	if r.Intn(6) == 0 {
		f = ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue}
		flt = nil
	}
	it.ep = []fEpoch{{f: f, ts: ts}}
	req := valueItem(it.st.node.NodeID(), h, 20, 1000, true, flt)
	res := a.createItems(sub, ts, req)[0]
	if res.StatusCode != ua.Good {
		c.Violate("create", "creating a monitored item (%s, %+v) answered %v", it.kind, f, res.StatusCode)
		return nil
	}
	it.id = res.MonitoredItemID
	it.ti = time.Duration(res.RevisedSamplingInterval * 1e6)
	return it
}

// ---------------------------------------------------------------- triggers

type tItem struct {
	*fItem
	mode  ua.MonitoringMode
	links map[*tItem]bool // items triggered by this one
	msgs  []time.Time     // publish times of messages that carry reports
	idxOf map[int]time.Time
}

func counterGen(r *rand.Rand, lo, hi int) func(int, time.Time, *ua.DataValue) (ua.DataValue, int) {
	return func(i int, now time.Time, prev *ua.DataValue) (ua.DataValue, int) {
		return ua.NewDataValue(int64(i), ua.Good, now, 0, now, 0), lo + r.Intn(hi-lo)
	}
}

func m03Triggers(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 })), server.WithMaxSubscriptionCount(200)}})
	defer w.Srv.Close()
	var wg sync.WaitGroup
	var hh atomic.Uint32
	for k := 0; k < c.N(10, 16); k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := w.AC()
			defer a.Close()
			p := newPublisher(a, 4)
			sub := a.createSub(125, 10000, 10, 0, true, 0).SubscriptionID
			var items []*tItem
			byH := map[uint32]*tItem{}
			n := 3 + rr.Intn(5)
			for i := 0; i < n; i++ {
				h := hh.Add(1)
				mode := []ua.MonitoringMode{ua.MonitoringModeSampling, ua.MonitoringModeSampling, ua.MonitoringModeReporting}[rr.Intn(3)]
				lo, hi := 3, 6
				if rr.Intn(2) == 0 {
					lo, hi = 20, 60 // slow: the interesting triggering items
				}
				st := w.newFStream(fmt.Sprintf("M03t.%d.%d.%d", round, k, i), ua.DataTypeIDInt64, -1, int64(0), counterGen(rand.New(rand.NewSource(rr.Int63())), lo, hi))
				req := valueItem(st.node.NodeID(), h, 20, 1000, true, nil)
				req.MonitoringMode = mode
				res := a.createItems(sub, ua.TimestampsToReturnServer, req)[0]
				if res.StatusCode != ua.Good {
					c.Violate("create", "creating an item answered %v", res.StatusCode)
					return
				}
				it := &tItem{fItem: &fItem{h: h, id: res.MonitoredItemID, st: st, ti: time.Duration(res.RevisedSamplingInterval * 1e6), ep: []fEpoch{{f: ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue}, ts: ua.TimestampsToReturnServer}}, kind: "trigger"}, mode: mode, links: map[*tItem]bool{}, idxOf: map[int]time.Time{}}
				items = append(items, it)
				byH[h] = it
			}
			// links: any graph, including self links and cycles
			set := func(t *tItem, add, rem []uint32, wantAdd, wantRem []ua.StatusCode) {
				res, err := a.Do(&ua.SetTriggeringRequest{SubscriptionID: sub, TriggeringItemID: t.id, LinksToAdd: add, LinksToRemove: rem})
				if err != nil {
					c.Violate("set-triggering", "SetTriggering: %v", err)
					return
				}
				x := res.(*ua.SetTriggeringResponse)
				if fmt.Sprint(x.AddResults) != fmt.Sprint(wantAdd) || fmt.Sprint(x.RemoveResults) != fmt.Sprint(wantRem) {
					c.Violate("set-triggering-results", "SetTriggering(add %v, remove %v) answered %v %v, expected %v %v", add, rem, x.AddResults, x.RemoveResults, wantAdd, wantRem)
				}
				c.Eval(fmt.Sprintf("links/%d/%d/%v/%v", len(add), len(rem), x.AddResults, x.RemoveResults))
			}
			for i := 0; i < n+rr.Intn(n); i++ {
				t, x := items[rr.Intn(n)], items[rr.Intn(n)]
				add, want := []uint32{x.id}, []ua.StatusCode{ua.Good}
				if rr.Intn(4) == 0 {
					add, want = append(add, x.id, 0xFFFFFFF0), append(want, ua.Good, ua.BadMonitoredItemIDInvalid)
				}
				set(t, add, nil, want, nil)
				t.links[x] = true
			}
			// remove some again before anything is observed (also ones that were added twice)
			for _, t := range items {
				for x := range t.links {
					if rr.Intn(4) == 0 {
						set(t, nil, []uint32{x.id, x.id, 0xFFFFFFF1}, nil, []ua.StatusCode{ua.Good, ua.BadMonitoredItemIDInvalid, ua.BadMonitoredItemIDInvalid})
						delete(t.links, x)
					}
				}
			}
			linked := time.Now()
			// what a removed link triggered is reported with the next message
			time.Sleep(600 * time.Millisecond)
			p.pump()
			time.Sleep(time.Duration(c.N(8, 25)) * time.Second)
			for _, it := range items {
				it.st.freeze()
			}
			time.Sleep(900 * time.Millisecond)
			p.Stop()
			var tns []time.Time
			for _, m := range p.Msgs() {
				tn := m.resp.NotificationMessage.PublishTime
				seen := map[*tItem]bool{}
				for _, x := range dataOf(m) {
					it := byH[x.ClientHandle]
					if it == nil {
						c.Violate("wrong-item", "notification for handle %d", x.ClientHandle)
						continue
					}
					it.got = append(it.got, x.Value)
					j := it.st.byTick[tick100(x.Value.ServerTimestamp)] - 1
					it.idxOf[j] = tn
					if !seen[it] {
						it.msgs = append(it.msgs, tn)
						seen[it] = true
					}
				}
				if len(seen) > 0 {
					tns = append(tns, tn)
				}
			}
			for _, x := range items {
				var by []*tItem
				for _, t := range items {
					if t.links[x] {
						by = append(by, t)
					}
				}
				if x.mode == ua.MonitoringModeReporting {
					x.judge(c)
					continue
				}
				// silent without links (what was triggered while links were set up may be reported once)
				slack := 0
				var trig []time.Time
				for _, t := range by {
					for j, at := range t.st.start {
						_ = j
						trig = append(trig, at)
					}
				}
				sort.Slice(trig, func(i, j int) bool { return trig[i].Before(trig[j]) })
				for _, t := range items {
					if len(t.st.start) > 0 && t.st.start[0].Before(linked) {
						slack = 1
					}
				}
				for i, tn := range x.msgs {
					upto := sort.Search(len(trig), func(k int) bool { return trig[k].After(tn) })
					if i+1 > upto+slack {
						c.Violate("untriggered", "sampling item reported in %d messages by %v, but its triggering items changed only %d times (%d triggering items)", i+1, tn, upto, len(by))
						break
					}
				}
				c.Eval(fmt.Sprintf("trig/%d/%v/%v", len(by), len(x.msgs) > 1, x.links[x]))
				// order and completeness of what was reported
				x.judgeReported(c)
				for _, t := range by {
					for j, at := range t.st.start {
						if at.Before(linked.Add(700 * time.Millisecond)) {
							continue
						}
						if j+1 < len(t.st.start) && t.st.start[j+1].Sub(at) < t.ti+margin {
							continue
						}
						// the message that follows the trigger
						m := sort.Search(len(tns), func(k int) bool { return !tns[k].Before(at.Add(t.ti + margin)) })
						if m == len(tns) {
							continue
						}
						// the newest run of x that was queued before the trigger
						q := sort.Search(len(x.st.start), func(k int) bool { return x.st.start[k].After(at.Add(-x.ti - margin)) }) - 1
						if q < 0 || (q+1 < len(x.st.start) && x.st.start[q+1].Sub(x.st.start[q]) < x.ti+margin) {
							continue
						}
						got, ok := x.idxOf[q]
						if !ok || got.After(tns[m]) {
							c.Violate("trigger-missed", "triggering item changed at %v, the message at %v should have carried run %d of the triggered item, which was reported at %v", at, tns[m], q, got)
							break
						}
						c.Eval("triggered")
					}
				}
			}
		}()
	}
	wg.Wait()
}

// judgeReported checks that the reports of an item have no gaps (between the first and the last one).
func (it *fItem) judgeReported(c *Ctx) {
	s := it.st
	s.mu.Lock()
	defer s.mu.Unlock()
	last := -1
	for _, g := range it.got {
		j := s.byTick[tick100(g.ServerTimestamp)] - 1
		if j < 0 || !eqVal(g.Value, s.runs[j].Value) {
			c.Violate("invented", "reported %v, which is of no sample", g)
			return
		}
		if j <= last {
			c.Violate("order", "run %d reported after run %d", j, last)
			return
		}
		for k := last + 1; k < j; k++ {
			if s.start[k+1].Sub(s.start[k]) >= it.ti+margin {
				c.Violate("queued-lost", "run %d of a sampling item was queued but not reported with run %d (last %d)", k, j, last)
				return
			}
		}
		last = j
	}
}

// ---------------------------------------------------------------- modes

func m03Modes(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 })), server.WithMaxSubscriptionCount(200)}})
	defer w.Srv.Close()
	var wg sync.WaitGroup
	for k := 0; k < c.N(24, 40); k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := w.AC()
			defer a.Close()
			p := newPublisher(a, 4)
			type rec struct {
				at  time.Time
				run int
				ts  time.Time
			}
			var mu sync.Mutex
			var got []rec
			lo, hi := 3, 12
			if k%2 == 0 {
				lo, hi = 1000, 2000 // the value does not change while the modes do
			}
			st := w.newFStream(fmt.Sprintf("M03m.%d.%d", round, k), ua.DataTypeIDInt64, -1, int64(0), counterGen(rand.New(rand.NewSource(rr.Int63())), lo, hi))
			p.on = func(m pubMsg) {
				for _, x := range dataOf(m) {
					st.mu.Lock()
					j := st.byTick[tick100(x.Value.ServerTimestamp)] - 1
					st.mu.Unlock()
					mu.Lock()
					got = append(got, rec{m.at, j, x.Value.ServerTimestamp})
					mu.Unlock()
					if j < 0 || x.Value.Value != int64(j) {
						c.Violate("invented", "reported %v", x.Value)
					}
				}
			}
			sub := a.createSub(125, 10000, 4, 0, true, 0).SubscriptionID
			req := valueItem(st.node.NodeID(), 1, 20, 1000, true, nil)
			mode := ua.MonitoringMode(rr.Intn(3))
			req.MonitoringMode = mode
			res := a.createItems(sub, ua.TimestampsToReturnServer, req)[0]
			if res.StatusCode != ua.Good {
				c.Violate("create", "creating an item answered %v", res.StatusCode)
				return
			}
			p.pump()
			hist := fmt.Sprint(mode)
			lastSeen, fresh := -1, true
			enabledAt := time.Now().Add(-time.Hour)
			for step := 0; step < c.N(8, 20) && !c.Violated(); step++ {
				begin := time.Now()
				mu.Lock()
				got = nil
				mu.Unlock()
				time.Sleep(time.Duration(300+rr.Intn(700)) * time.Millisecond)
				mu.Lock()
				g := append([]rec{}, got...)
				mu.Unlock()
				st.mu.Lock()
				reads := 0
				for _, t := range st.reads {
					// a poll may have been under way when the mode changed
					if t.After(begin.Add(100 * time.Millisecond)) {
						reads++
					}
				}
				cur := len(st.runs) - 1
				st.mu.Unlock()
				switch mode {
				case ua.MonitoringModeDisabled:
					if len(g) > 0 {
						c.Violate("disabled-reports", "a disabled item reported %d values (modes %s)", len(g), hist)
					}
					if reads > 0 {
						c.Violate("disabled-samples", "a disabled item was sampled %d times (modes %s)", reads, hist)
					}
				case ua.MonitoringModeSampling:
					if len(g) > 0 {
						c.Violate("sampling-reports", "an item in sampling mode reported %d values (modes %s)", len(g), hist)
					}
				case ua.MonitoringModeReporting:
					if len(g) == 0 && time.Since(begin) > 700*time.Millisecond && (cur != lastSeen || fresh) {
						c.Violate("not-reporting", "a reporting item reported nothing for %v (modes %s, enabled anew %v)", time.Since(begin), hist, fresh)
					}
					if len(g) > 0 || time.Since(begin) > 700*time.Millisecond {
						fresh = false
					}
				}
				for i, x := range g {
					if x.ts.Before(enabledAt) {
						c.Violate("stale", "a value sampled at %v, before the item was disabled, was reported after it was enabled at %v (modes %s)", x.ts, enabledAt, hist)
					}
					if x.run <= lastSeen && i > 0 {
						c.Violate("order", "run %d reported after run %d (modes %s)", x.run, lastSeen, hist)
					}
					lastSeen = x.run
				}
				c.Eval(fmt.Sprintf("mode/%s/%v", hist[max(0, len(hist)-3):], len(g) > 0))
				// switch; publish requests are held back so that nothing is in flight
				next := ua.MonitoringMode(rr.Intn(3))
				t1 := time.Now().UTC().Round(0)
				rs, err := a.Do(&ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: next, MonitoredItemIDs: []uint32{res.MonitoredItemID, 0xFFFFFFF0}})
				if err != nil {
					c.Violate("set-mode", "SetMonitoringMode: %v", err)
					return
				}
				if x := rs.(*ua.SetMonitoringModeResponse).Results; x[0] != ua.Good || x[1] != ua.BadMonitoredItemIDInvalid {
					c.Violate("set-mode", "SetMonitoringMode of an item and an unknown one answered %v", x)
				}
				if mode == ua.MonitoringModeDisabled && next != mode {
					enabledAt = t1.Add(-time.Millisecond)
					fresh = true
				}
				mode = next
				hist += fmt.Sprint(uint32(next))
			}
			// invalid modes are refused
			if rs, err := a.Do(&ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: 7, MonitoredItemIDs: []uint32{res.MonitoredItemID}}); err == nil {
				if x := rs.(*ua.SetMonitoringModeResponse).Results; !x[0].IsBad() {
					c.Violate("invalid-mode", "monitoring mode 7 accepted: %v", x)
				}
			}
			p.Stop()
		}()
	}
	wg.Wait()
}

// m03Refused: filters that make no sense are refused, and refusing them changes nothing.
func m03Refused(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{})
	defer w.Srv.Close()
	a := w.AC()
	defer a.Close()
	sub := a.createSub(125, 10000, 4, 0, true, 0).SubscriptionID
	num := w.addVar(VarSpec{Name: "M03r.num", Value: float64(1), DataType: ua.DataTypeIDDouble})
	str := w.addVar(VarSpec{Name: "M03r.str", Value: "x", DataType: ua.DataTypeIDString})
	arr := w.addVar(VarSpec{Name: "M03r.arr", Value: []int32{1, 2, 3}, DataType: ua.DataTypeIDInt32, Rank: 1})
	abs := func(d float64) ua.DataChangeFilter {
		return ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue, DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: d}
	}
	type cs struct {
		name   string
		node   *server.VariableNode
		filter any
		rng    string
		mode   ua.MonitoringMode
		attr   uint32
	}
	base := cs{mode: ua.MonitoringModeReporting, attr: ua.AttributeIDValue}
	mk := func(name string, n *server.VariableNode, f any, mod ...func(*cs)) cs {
		x := base
		x.name, x.node, x.filter = name, n, f
		for _, m := range mod {
			m(&x)
		}
		return x
	}
	cases := []cs{
		mk("deadband on string", str, abs(1)),
		mk("negative deadband", num, abs(-1)),
		mk("NaN deadband", num, abs(math.NaN())),
		mk("unknown trigger", num, ua.DataChangeFilter{Trigger: 9}),
		mk("unknown deadband type", num, ua.DataChangeFilter{Trigger: 1, DeadbandType: 7, DeadbandValue: 1}),
		mk("event filter on value", num, ua.EventFilter{}),
		mk("filter on other attribute", num, abs(1), func(x *cs) { x.attr = ua.AttributeIDDisplayName }),
		mk("malformed range", arr, nil, func(x *cs) { x.rng = "2:1" }),
		mk("malformed range", arr, nil, func(x *cs) { x.rng = "a" }),
		mk("invalid mode", num, nil, func(x *cs) { x.mode = 5 }),
		mk("invalid mode", num, nil, func(x *cs) { x.mode = 0xFFFFFFF }),
		mk("invalid attribute", num, nil, func(x *cs) { x.attr = 99 }),
	}
	good := a.createItems(sub, ua.TimestampsToReturnBoth, valueItem(num.NodeID(), 1, 100, 5, true, abs(2)), valueItem(str.NodeID(), 2, 100, 5, true, nil), valueItem(arr.NodeID(), 3, 100, 5, true, nil))
	ids := map[*server.VariableNode]uint32{num: good[0].MonitoredItemID, str: good[1].MonitoredItemID, arr: good[2].MonitoredItemID}
	handles := map[*server.VariableNode]uint32{num: 1, str: 2, arr: 3}
	var seenMu sync.Mutex
	seen := map[uint32]int{}
	p := newPublisher(a, 3)
	p.on = func(m pubMsg) {
		for _, x := range dataOf(m) {
			seenMu.Lock()
			seen[x.ClientHandle]++
			seenMu.Unlock()
			if x.ClientHandle > 3 {
				c.Violate("refused-but-active", "handle %d of a refused item is reported", x.ClientHandle)
			}
		}
	}
	p.pump()
	for i, x := range cases {
		req := valueItem(x.node.NodeID(), uint32(100+i), 100, 5, true, x.filter)
		req.ItemToMonitor.AttributeID, req.ItemToMonitor.IndexRange, req.MonitoringMode = x.attr, x.rng, x.mode
		st := a.createItems(sub, ua.TimestampsToReturnBoth, req)[0].StatusCode
		if !st.IsBad() {
			c.Violate("accepted", "creating an item with %s answered %v", x.name, st)
		}
		c.Eval("refused/" + x.name)
		if x.rng == "" && x.mode == ua.MonitoringModeReporting && x.attr == ua.AttributeIDValue {
			res, err := a.Do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: ids[x.node], RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(200 + i), SamplingInterval: 100, QueueSize: 5, DiscardOldest: true, Filter: x.filter}}}})
			if err != nil {
				c.Violate("modify", "modify: %v", err)
			} else if st := res.(*ua.ModifyMonitoredItemsResponse).Results[0].StatusCode; !st.IsBad() {
				c.Violate("accepted", "modifying an item to %s answered %v", x.name, st)
			}
			c.Eval("refused-modify/" + x.name)
		}
		_ = handles
	}
	// the refused changes left the items as they were: a change of 1 is within the deadband of 2
	time.Sleep(500 * time.Millisecond)
	seenMu.Lock()
	seen = map[uint32]int{}
	seenMu.Unlock()
	now := func(v ua.Variant) ua.DataValue { return ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0) }
	num.SetValue(now(float64(2)))
	str.SetValue(now("y"))
	time.Sleep(700 * time.Millisecond)
	seenMu.Lock()
	if seen[1] != 0 || seen[2] != 1 || seen[3] != 0 {
		c.Violate("refused-effect", "after refused changes the items report %v", seen)
	}
	seenMu.Unlock()
	// timestamps selected by a modification
	for _, ts := range []ua.TimestampsToReturn{ua.TimestampsToReturnNeither, ua.TimestampsToReturnSource, ua.TimestampsToReturnServer, ua.TimestampsToReturnBoth} {
		if _, err := a.Do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ts, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: ids[str], RequestedParameters: ua.MonitoringParameters{ClientHandle: 2, SamplingInterval: 100, QueueSize: 5, DiscardOldest: true}}}}); err != nil {
			c.Violate("modify", "modify: %v", err)
		}
		before := len(p.Msgs())
		time.Sleep(250 * time.Millisecond)
		str.SetValue(now(fmt.Sprintf("ts %d", ts)))
		ok := false
		for i := 0; i < 100 && !ok; i++ {
			for _, m := range p.Msgs()[before:] {
				for _, x := range dataOf(m) {
					if x.ClientHandle == 2 && x.Value.Value == fmt.Sprintf("ts %d", ts) {
						ok = true
						src, srv := !x.Value.SourceTimestamp.IsZero(), !x.Value.ServerTimestamp.IsZero()
						if src != (ts == ua.TimestampsToReturnSource || ts == ua.TimestampsToReturnBoth) || srv != (ts == ua.TimestampsToReturnServer || ts == ua.TimestampsToReturnBoth) {
							c.Violate("modified-timestamps", "item modified to timestamps %v reports source %v server %v", ts, src, srv)
						}
					}
				}
			}
			time.Sleep(20 * time.Millisecond)
		}
		if !ok {
			c.Violate("modified-silent", "no report after a modification")
		}
		c.Eval(fmt.Sprintf("modified-ts/%v", ts))
	}
	p.Stop()
}

// m03Ranges: items on part of an array or string report exactly the changes of that part.
func m03Ranges(c *Ctx, r *rand.Rand, round int) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MinSupportedSampleRate = 20 }))}})
	defer w.Srv.Close()
	a := w.AC()
	defer a.Close()
	sub := a.createSub(125, 10000, 4, 0, true, 0).SubscriptionID
	type item struct {
		lo, hi int
		want   []string
		got    []string
		desc   string
	}
	type rvar struct {
		node  *server.VariableNode
		cur   reflect.Value // array, or string
		items []*item
	}
	part := func(v reflect.Value, it *item) string {
		if v.Len() <= it.lo {
			return "none"
		}
		return fmt.Sprintf("%v", v.Slice(it.lo, min(it.hi+1, v.Len())).Interface())
	}
	var vars []*rvar
	byH := map[uint32]*item{}
	h := uint32(0)
	for i := 0; i < 16; i++ {
		v := &rvar{}
		name := fmt.Sprintf("M03x.%d.%d", round, i)
		var f any
		switch i % 4 {
		case 0:
			v.cur = reflect.ValueOf("abcdefgh")
			v.node = w.addVar(VarSpec{Name: name, Value: v.cur.Interface(), DataType: ua.DataTypeIDString})
		case 1:
			v.cur = reflect.ValueOf(ua.ByteString("abcdefgh"))
			v.node = w.addVar(VarSpec{Name: name, Value: v.cur.Interface(), DataType: ua.DataTypeIDByteString})
		case 2:
			v.cur = reflect.ValueOf([]string{"a", "b", "c", "d", "e", "f", "g", "h"})
			v.node = w.addVar(VarSpec{Name: name, Value: v.cur.Interface(), DataType: ua.DataTypeIDString, Rank: 1})
		case 3:
			v.cur = reflect.ValueOf([]int32{10, 20, 30, 40, 50, 60, 70, 80})
			v.node = w.addVar(VarSpec{Name: name, Value: v.cur.Interface(), DataType: ua.DataTypeIDInt32, Rank: 1})
			if r.Intn(2) == 0 {
				f = ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue, DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: 0.5}
			}
		}
		for k := 0; k < 3; k++ {
			lo := r.Intn(7)
			it := &item{lo: lo, hi: lo + r.Intn(8-lo)}
			rng := fmt.Sprint(it.lo)
			if it.hi > it.lo {
				rng = fmt.Sprintf("%d:%d", it.lo, it.hi)
			}
			it.desc = fmt.Sprintf("%T range %s", v.cur.Interface(), rng)
			it.want = []string{part(v.cur, it)}
			h++
			byH[h] = it
			req := valueItem(v.node.NodeID(), h, 20, 1000, true, f)
			req.ItemToMonitor.IndexRange = rng
			if res := a.createItems(sub, ua.TimestampsToReturnBoth, req)[0]; res.StatusCode != ua.Good {
				c.Violate("create", "creating an item on %s answered %v", it.desc, res.StatusCode)
				return
			}
			v.items = append(v.items, it)
		}
		vars = append(vars, v)
	}
	p := newPublisher(a, 4)
	p.pump()
	time.Sleep(200 * time.Millisecond)
	for step := 0; step < c.N(40, 120); step++ {
		for _, v := range vars {
			l := v.cur.Len()
			if r.Intn(4) == 0 {
				l = 8 - r.Intn(3)
			}
			switch x := v.cur.Interface().(type) {
			case string:
				b := append([]byte(x), "zzzzzzzz"...)[:l]
				b[r.Intn(l)] = byte('a' + r.Intn(26))
				v.cur = reflect.ValueOf(string(b))
			case ua.ByteString:
				b := append([]byte(x), "zzzzzzzz"...)[:l]
				b[r.Intn(l)] = byte('a' + r.Intn(26))
				v.cur = reflect.ValueOf(ua.ByteString(b))
			default:
				n := reflect.MakeSlice(v.cur.Type(), l, l)
				reflect.Copy(n, v.cur)
				i := r.Intn(l)
				if n.Type().Elem().Kind() == reflect.String {
					n.Index(i).SetString(fmt.Sprint(r.Intn(100)))
				} else {
					n.Index(i).SetInt(int64(r.Intn(100)))
				}
				v.cur = n
			}
			v.node.SetValue(ua.NewDataValue(v.cur.Interface(), ua.Good, time.Now(), 0, time.Now(), 0))
			for _, it := range v.items {
				if q := part(v.cur, it); q != it.want[len(it.want)-1] {
					it.want = append(it.want, q)
				}
			}
		}
		time.Sleep(120 * time.Millisecond) // held for several sampling intervals
	}
	time.Sleep(700 * time.Millisecond)
	p.Stop()
	for _, m := range p.Msgs() {
		for _, x := range dataOf(m) {
			it := byH[x.ClientHandle]
			q := "none"
			if x.Value.Value != nil {
				q = fmt.Sprintf("%v", x.Value.Value)
			}
			if (q == "none") != (x.Value.StatusCode == ua.BadIndexRangeNoData) {
				c.Violate("range-status", "%s: reported %v", it.desc, x.Value)
			}
			it.got = append(it.got, q)
		}
	}
	for _, it := range byH {
		if fmt.Sprint(it.got) != fmt.Sprint(it.want) {
			// a run may be skipped or merged when the machine stalls: the reports must then still be a subsequence that ends the same
			k := 0
			for _, g := range it.got {
				for k < len(it.want) && it.want[k] != g {
					k++
				}
			}
			if k >= len(it.want) || len(it.want)-len(it.got) > 2 || it.got[len(it.got)-1] != it.want[len(it.want)-1] {
				c.Violate("range", "%s: reported %v, the part had the values %v", it.desc, it.got, it.want)
			} else {
				c.Count("range reports merged", 1)
			}
		}
		c.Eval("range/" + it.desc)
		c.Count("range reports", len(it.got))
	}
}

func runM03(c *Ctx) {
	r := c.Rng("m03")
	for k := 0; k < c.N(1, 8) && !c.Violated(); k++ {
		var wg sync.WaitGroup
		for _, f := range []func(*Ctx, *rand.Rand, int){m03Filters, m03Triggers, m03Modes, m03Ranges, func(c *Ctx, r *rand.Rand, _ int) { m03Refused(c, r) }} {
			f := f
			r2 := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() { defer wg.Done(); f(c, r2, k) }()
		}
		wg.Wait()
	}
}
