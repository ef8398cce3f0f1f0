package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/anishathalye/porcupine"
	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("D01", &check{run: runD01, minEvals: 500, minDistinct: 200,
		rule: "per-variable histories of concurrent read/write operations (8+ network sessions and the application) decided by a linearizability checker; distinct = distinct observed (variable, state) pairs read"})
}

// d01In is an operation on one variable: kind r (read), w (write), with element bounds [i,j) of the array.
type d01In struct {
	write bool
	i, j  int
	vals  [8]int64 // written values at [i,j)
	tag   int64    // identifies the writing operation (its status and time stamp)
	app   bool
}

type d01Out struct {
	ok   bool
	vals [8]int64
	tag  int64 // of status
}

type d01State struct {
	vals [8]int64
	tag  int64
}

// d01Status encodes a tag in the info bits of a good status code.
func d01Status(tag int64) ua.StatusCode {
	return ua.StatusCode(uint32(tag%1000) << 16 & 0x0fff0000)
}

var d01Model = porcupine.Model{
	Init: func() interface{} { return d01State{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, in, out := state.(d01State), input.(d01In), output.(d01Out)
		if in.write {
			if !out.ok {
				return true, s
			}
			copy(s.vals[in.i:in.j], in.vals[in.i:in.j])
			s.tag = in.tag
			return true, s
		}
		for k := in.i; k < in.j; k++ {
			if out.vals[k] != s.vals[k] {
				return false, s
			}
		}
		return d01Status(s.tag) == ua.StatusCode(out.tag), s
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(input, output interface{}) string {
		in, out := input.(d01In), output.(d01Out)
		if in.write {
			return fmt.Sprintf("write[%d:%d]=%v tag %d app=%v -> ok=%v", in.i, in.j, in.vals[in.i:in.j], in.tag, in.app, out.ok)
		}
		return fmt.Sprintf("read[%d:%d] -> %v status %#x", in.i, in.j, out.vals[in.i:in.j], out.tag)
	},
}

// slowHistorian delays inside the write path.
type slowHistorian struct {
	nullHistorian
	rng *rand.Rand
	mu  sync.Mutex
}

func (h *slowHistorian) WriteValue(ctx context.Context, id ua.NodeID, v ua.DataValue) error {
	h.mu.Lock()
	n := h.rng.Intn(8)
	h.mu.Unlock()
	if n < 3 {
		time.Sleep(time.Duration(n*50) * time.Microsecond)
	}
	return nil
}

type nullHistorian struct{}

func (nullHistorian) WriteEvent(context.Context, ua.NodeID, []ua.Variant) error { return nil }
func (nullHistorian) WriteValue(context.Context, ua.NodeID, ua.DataValue) error { return nil }
func (nullHistorian) ReadEvent(context.Context, []ua.HistoryReadValueID, ua.ReadEventDetails, ua.TimestampsToReturn, bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return nil, ua.BadHistoryOperationUnsupported
}
func (nullHistorian) ReadRawModified(context.Context, []ua.HistoryReadValueID, ua.ReadRawModifiedDetails, ua.TimestampsToReturn, bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return nil, ua.BadHistoryOperationUnsupported
}
func (nullHistorian) ReadProcessed(context.Context, []ua.HistoryReadValueID, ua.ReadProcessedDetails, ua.TimestampsToReturn, bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return nil, ua.BadHistoryOperationUnsupported
}
func (nullHistorian) ReadAtTime(context.Context, []ua.HistoryReadValueID, ua.ReadAtTimeDetails, ua.TimestampsToReturn, bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return nil, ua.BadHistoryOperationUnsupported
}

type d01Var struct {
	node  *server.VariableNode
	id    ua.NodeID
	array bool
	kind  d01Kind
	mu    sync.Mutex
	ops   []porcupine.Operation
	// time stamps seen per (whole state) value
	stamps map[d01State]time.Time
	// write windows of client writes by tag, to bound time stamps
	win map[int64][2]time.Time
	app map[int64]time.Time
	// snapshot aliasing
	snaps []d01Snap
}

type d01Snap struct {
	live ua.Variant
	copy [8]int64
}

func runD01(c *Ctx) {
	r := c.Rng("d01")
	hist := &slowHistorian{rng: rand.New(rand.NewSource(r.Int63()))}
	w := newWorld(c, WorldOpts{})
	defer w.Srv.Close()
	type doer func(ua.ServiceRequest) (ua.ServiceResponse, error)
	var doers []doer
	add := func(p *raw.Policy, mode int) {
		s, err := w.RawSession(p, mode)
		if err != nil {
			c.Inconclusive("session: %v", err)
			return
		}
		doers = append(doers, s.Do)
	}
	for i := 0; i < 5; i++ {
		add(raw.None, raw.ModeNone)
	}
	add(raw.Basic256Sha256, raw.ModeSign)
	add(raw.Aes256, raw.ModeSignAndEncrypt)
	cl, err := w.Dial(raw.None, raw.ModeNone, client.WithTimeoutHint(60000))
	if err != nil {
		c.Inconclusive("client: %v", err)
		return
	}
	defer cl.Abort(bg())
	doers = append(doers, func(q ua.ServiceRequest) (ua.ServiceResponse, error) {
		switch x := q.(type) {
		case *ua.ReadRequest:
			return cl.Read(bg(), x)
		case *ua.WriteRequest:
			return cl.Write(bg(), x)
		}
		panic("request type")
	})
	rounds := c.N(50, 600)
	for round := 0; round < rounds && !c.Violated(); round++ {
		var vars []*d01Var
		for i := 0; i < 3; i++ {
			v := &d01Var{array: i > 0, stamps: map[d01State]time.Time{}, win: map[int64][2]time.Time{}, app: map[int64]time.Time{}}
			name := fmt.Sprintf("D01.%d.%d", round, i)
			spec := VarSpec{Name: name, Value: int64(0), DataType: ua.DataTypeIDInt64}
			if v.array {
				v.kind = d01Kinds[(round*2+i-1)%len(d01Kinds)]
				spec.Value, spec.DataType, spec.Rank = v.kind.to(make([]int64, 8)), v.kind.dataType, 1
			}
			if (round+i)%2 == 0 {
				spec.Hist, spec.Historian = true, hist
			}
			v.node = w.addVar(spec)
			v.id = ua.NewNodeIDString(w.ensureNS(), name)
			vars = append(vars, v)
		}
		var tags int64
		var wg sync.WaitGroup
		stop := int32(0)
		for k, do := range doers {
			wg.Add(1)
			go func(k int, do doer, rr *rand.Rand) {
				defer wg.Done()
				for n := 0; n < 60 && atomic.LoadInt32(&stop) == 0; n++ {
					if !d01Step(c, vars, k, do, rr, &tags) {
						atomic.StoreInt32(&stop, 1)
						return
					}
				}
			}(k, do, rand.New(rand.NewSource(r.Int63())))
		}
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(k int, rr *rand.Rand) {
				defer wg.Done()
				for n := 0; n < 80; n++ {
					d01App(vars, 100+k, rr, &tags)
					if rr.Intn(3) == 0 {
						time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
					}
				}
			}(k, rand.New(rand.NewSource(r.Int63())))
		}
		wg.Wait()
		for _, v := range vars {
			if len(v.ops) == 0 {
				continue
			}
			res, info := porcupine.CheckOperationsVerbose(d01Model, v.ops, 30*time.Second)
			c.Count("operations", len(v.ops))
			switch res {
			case porcupine.Illegal:
				txt := ""
				_ = info
				for _, o := range d01Minimal(v.ops) {
					txt += fmt.Sprintf("  client %d [%d,%d] %s\n", o.ClientId, o.Call, o.Return, d01Model.DescribeOperation(o.Input, o.Output))
				}
				c.Violate("linearizability", "history of %d operations on %v has no linearization; smallest failing prefix ends with:\n%s", len(v.ops), v.id, tail(txt, 3000))
			case porcupine.Unknown:
				c.Count("histories_undecided", 1)
			default:
				c.Count("histories_linearizable", 1)
			}
			for _, s := range v.snaps {
				now, _ := v.kind.from(s.live)
				for i := range s.copy {
					if now[i] != s.copy[i] {
						c.Violate("aliasing", "a value of %s array %v obtained by the application changed afterwards: was %v, is %v", v.kind.name, v.id, s.copy, now)
						break
					}
				}
			}
			must(w.Srv.NamespaceManager().DeleteNode(v.node, true))
		}
	}
	c.Sample("history", map[string]any{"clients": len(doers), "rounds": rounds})
}

// d01Minimal returns the shortest prefix (by return time) that is not linearizable, last 30 operations.
func d01Minimal(ops []porcupine.Operation) []porcupine.Operation {
	lo, hi := 1, len(ops)
	pre := func(n int) []porcupine.Operation {
		cut := ops[n-1].Return
		var out []porcupine.Operation
		for _, o := range ops {
			if o.Return <= cut {
				out = append(out, o)
			} else if in := o.Input.(d01In); in.write && o.Call <= cut {
				out = append(out, o)
			}
		}
		return out
	}
	sortOps(ops)
	for lo < hi {
		m := (lo + hi) / 2
		if porcupine.CheckOperationsTimeout(d01Model, pre(m), 5*time.Second) == porcupine.Illegal {
			hi = m
		} else {
			lo = m + 1
		}
	}
	out := pre(lo)
	if len(out) > 30 {
		out = out[len(out)-30:]
	}
	return out
}

func sortOps(ops []porcupine.Operation) {
	for i := 1; i < len(ops); i++ {
		for j := i; j > 0 && ops[j].Return < ops[j-1].Return; j-- {
			ops[j], ops[j-1] = ops[j-1], ops[j]
		}
	}
}

var d01Epoch = time.Now()

func (v *d01Var) record(client int, call time.Time, in d01In, out d01Out) {
	ret := time.Since(d01Epoch)
	v.mu.Lock()
	v.ops = append(v.ops, porcupine.Operation{ClientId: client, Input: in, Call: int64(call.Sub(d01Epoch)), Output: out, Return: int64(ret)})
	v.mu.Unlock()
}

func (v *d01Var) norm(tag int64) int64 {
	if v.array {
		return tag % v.kind.m
	}
	return tag
}

func (v *d01Var) variant(vals [8]int64, i, j int) ua.Variant {
	if !v.array {
		return vals[0]
	}
	return v.kind.to(vals[i:j])
}

// seen checks the time stamp of a whole value.
func (v *d01Var) seen(c *Ctx, vals [8]int64, st ua.StatusCode, ts time.Time) {
	v.mu.Lock()
	defer v.mu.Unlock()
	k := d01State{vals, int64(st)}
	if vals == ([8]int64{}) || v.array && v.kind.m < 1000 {
		return
	}
	// the newest element identifies the last write unless it was a partial one
	if old, ok := v.stamps[k]; ok && !old.Equal(ts) {
		c.Violate("stamp", "the same value %v of %v was read with source timestamps %v and %v", vals, v.id, old, ts)
	}
	v.stamps[k] = ts
	if !v.array {
		if at, ok := v.app[vals[0]]; ok && !at.Equal(ts) {
			c.Violate("stamp", "value %d of %v was set with source timestamp %v, read with %v", vals[0], v.id, at, ts)
		}
		if win, ok := v.win[vals[0]]; ok && ts.Before(win[0].Add(-time.Millisecond)) {
			c.Violate("stamp", "value %d of %v was written after %v but carries source timestamp %v", vals[0], v.id, win[0], ts)
		}
	}
}

func d01Step(c *Ctx, vars []*d01Var, k int, do func(ua.ServiceRequest) (ua.ServiceResponse, error), rr *rand.Rand, tags *int64) bool {
	perm := rr.Perm(len(vars))[:1+rr.Intn(len(vars))]
	var ins []d01In
	if rr.Intn(2) == 0 {
		req := &ua.WriteRequest{}
		bad := make([]bool, len(perm))
		for n, x := range perm {
			v := vars[x]
			tag := atomic.AddInt64(tags, 1)
			in := d01In{write: true, i: 0, j: 8, tag: tag}
			for e := range in.vals {
				in.vals[e] = v.norm(tag)
			}
			wv := ua.WriteValue{NodeID: v.id, AttributeID: ua.AttributeIDValue}
			if !v.array {
				in.j = 1
			} else if rr.Intn(3) > 0 {
				in.i = rr.Intn(7)
				in.j = in.i + 1 + rr.Intn(8-in.i)
				wv.IndexRange = fmt.Sprintf("%d:%d", in.i, in.j-1)
				if in.j == in.i+1 {
					wv.IndexRange = fmt.Sprint(in.i)
				}
			}
			wv.Value = ua.DataValue{Value: v.variant(in.vals, in.i, in.j), StatusCode: d01Status(tag)}
			if rr.Intn(8) == 0 { // to be refused
				bad[n] = true
				switch rr.Intn(3) {
				case 0:
					wv.Value.Value = fmt.Sprint(tag) // a scalar of another type
				case 1:
					if v.array {
						wv.IndexRange = "6:9"
						wv.Value.Value = v.kind.to([]int64{tag, tag, tag, tag})
					} else {
						wv.Value.Value = []int64{tag}
					}
				case 2:
					wv.Value.Value = int32(tag)
				}
			}
			req.NodesToWrite = append(req.NodesToWrite, wv)
			ins = append(ins, in)
			v.mu.Lock()
			v.win[tag] = [2]time.Time{time.Now()}
			v.mu.Unlock()
		}
		call := time.Now()
		res, err := do(req)
		if err != nil {
			c.Violate("service", "write: %v", err)
			return false
		}
		for n, x := range perm {
			st := res.(*ua.WriteResponse).Results[n]
			if bad[n] && !st.IsBad() {
				c.Violate("accepts", "write %v to %v accepted", req.NodesToWrite[n].Value.Value, vars[x].id)
			}
			if !bad[n] && st.IsBad() {
				c.Violate("refuses", "write %v[%s] to %v refused: %#x", req.NodesToWrite[n].Value.Value, req.NodesToWrite[n].IndexRange, vars[x].id, uint32(st))
			}
			vars[x].record(k, call, ins[n], d01Out{ok: !st.IsBad()})
			c.Count("writes", 1)
		}
		return true
	}
	req := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnSource}
	for _, x := range perm {
		v := vars[x]
		in := d01In{i: 0, j: 8}
		rv := ua.ReadValueID{NodeID: v.id, AttributeID: ua.AttributeIDValue}
		if !v.array {
			in.j = 1
		} else if rr.Intn(4) == 0 {
			in.i = rr.Intn(7)
			in.j = in.i + 2 + rr.Intn(7-in.i)
			rv.IndexRange = fmt.Sprintf("%d:%d", in.i, in.j-1)
		}
		req.NodesToRead = append(req.NodesToRead, rv)
		ins = append(ins, in)
	}
	call := time.Now()
	res, err := do(req)
	if err != nil {
		c.Violate("service", "read: %v", err)
		return false
	}
	for n, x := range perm {
		v := vars[x]
		dv := res.(*ua.ReadResponse).Results[n]
		in := ins[n]
		out := d01Out{ok: true, tag: int64(dv.StatusCode)}
		switch y := dv.Value.(type) {
		case int64:
			out.vals[0] = y
		default:
			if v.array {
				if z, ok := v.kind.from(y); ok && len(z) == in.j-in.i {
					copy(out.vals[in.i:in.j], z)
					break
				}
			}
			c.Violate("shape", "read of %v returned %v status %#x", v.id, dv.Value, uint32(dv.StatusCode))
			return false
		}
		v.record(k, call, in, out)
		if in.j-in.i == 8 || !v.array {
			v.seen(c, out.vals, dv.StatusCode, dv.SourceTimestamp)
		}
		c.Eval(fmt.Sprintf("%v/%v", v.id, out))
		c.Count("reads", 1)
	}
	return true
}

// d01App: the hosting application reads and writes directly.
func d01App(vars []*d01Var, k int, rr *rand.Rand, tags *int64) {
	v := vars[rr.Intn(len(vars))]
	if rr.Intn(2) == 0 {
		tag := atomic.AddInt64(tags, 1)
		in := d01In{write: true, i: 0, j: 8, tag: tag, app: true}
		for e := range in.vals {
			in.vals[e] = v.norm(tag)
		}
		if !v.array {
			in.j = 1
		}
		ts := d01Epoch.Add(time.Duration(tag) * time.Second).UTC().Truncate(100)
		v.mu.Lock()
		v.app[tag] = ts
		v.mu.Unlock()
		call := time.Now()
		v.node.SetValue(ua.NewDataValue(v.variant(in.vals, 0, 8), d01Status(tag), ts, 0, time.Now(), 0))
		v.record(k, call, in, d01Out{ok: true})
		return
	}
	call := time.Now()
	dv := v.node.Value()
	in := d01In{i: 0, j: 8}
	out := d01Out{ok: true, tag: int64(dv.StatusCode)}
	switch y := dv.Value.(type) {
	case int64:
		out.vals[0] = y
		in.j = 1
	default:
		z, _ := v.kind.from(y)
		copy(out.vals[:], z)
	}
	v.record(k, call, in, out)
	if v.array {
		v.mu.Lock()
		v.snaps = append(v.snaps, d01Snap{dv.Value, out.vals})
		v.mu.Unlock()
	}
}
