package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"runtime/metrics"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/ua"
)

func init() {
	register("C02", &check{run: runC02, minEvals: 50000, minDistinct: 10000,
		rule: "distinct (type, input bytes) pairs; each decode is watched for panic, fatal error, elapsed time and bytes allocated; every proper prefix of a valid encoding must be refused; accepted inputs must re-encode to an equal value"})
}

type decodeWatch struct {
	c       *Ctx
	current atomic.Value // string
	started atomic.Int64
	sample  []metrics.Sample
}

func newDecodeWatch(c *Ctx) *decodeWatch {
	w := &decodeWatch{c: c, sample: []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}}
	w.current.Store("")
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if s := w.started.Load(); s != 0 && time.Since(time.Unix(0, s)) > 20*time.Second {
				c.Violate("hang", "decoding does not end: %v", w.current.Load())
				os.Exit(3)
			}
		}
	}()
	return w
}

func (w *decodeWatch) allocated() uint64 {
	metrics.Read(w.sample)
	return w.sample[0].Value.Uint64()
}

// decode decodes b into a fresh t; oracle on panic, time and memory.
func (w *decodeWatch) decode(label string, t reflect.Type, b []byte, mode int) (reflect.Value, int, error) {
	q := reflect.New(t)
	if len(b) <= 64 {
		w.current.Store(fmt.Sprintf("%s from %x", label, b))
	} else {
		w.current.Store(fmt.Sprintf("%s from %d bytes %x...", label, len(b), b[:64]))
	}
	a0 := w.allocated()
	w.started.Store(time.Now().UnixNano())
	n, err := decodeUA(b, q.Interface(), mode)
	d := time.Since(time.Unix(0, w.started.Load()))
	w.started.Store(0)
	a := w.allocated() - a0
	if err != nil && bytes.HasPrefix([]byte(err.Error()), []byte("panic:")) {
		w.c.Violate("panic:"+label, "decoding %s panics: %v\ninput %x", label, err, clipB(b))
	}
	if lim := uint64(8<<20) + 2000*uint64(len(b)); a > lim {
		w.c.Violate("memory:"+label, "decoding %d bytes as %s allocated %d bytes\ninput %x", len(b), label, a, clipB(b))
	}
	if d > 10*time.Second {
		w.c.Violate("slow:"+label, "decoding %d bytes as %s took %v\ninput %x", len(b), label, d, clipB(b))
	}
	return q, n, err
}

func runC02(c *Ctx) {
	types := registeredTypes()
	for _, st := range types {
		if st.Typ.Kind() == reflect.Struct && st.Typ.Size() < 200 {
			embeddable = append(embeddable, st)
		}
	}
	w := newDecodeWatch(c)
	type target struct {
		label string
		t     reflect.Type
		fill  func(g *gen, v reflect.Value)
	}
	var targets []target
	def := func(d int) func(g *gen, v reflect.Value) {
		return func(g *gen, v reflect.Value) { g.fill(v, d) }
	}
	for _, st := range types {
		targets = append(targets, target{typeName(st.Typ), st.Typ, def(3)})
	}
	for _, t := range builtinTypes {
		targets = append(targets, target{typeName(t), t, def(4)})
		t := t
		for rank := 0; rank <= 3; rank++ {
			rank := rank
			targets = append(targets, target{fmt.Sprintf("Variant<%s,%d>", typeName(t), rank), tVariant, func(g *gen, v reflect.Value) {
				if x := g.variantOf(t, rank, 3); x != nil {
					v.Set(reflect.ValueOf(&x).Elem())
				}
			}})
		}
	}
	for _, t := range []reflect.Type{reflect.TypeOf([]ua.Variant{}), reflect.TypeOf([]ua.DataValue{}), reflect.TypeOf([]ua.ExtensionObject{}), reflect.TypeOf([]string{}), reflect.TypeOf([]ua.NodeID{}), reflect.TypeOf([]ua.DiagnosticInfo{})} {
		targets = append(targets, target{typeName(t), t, def(4)})
	}
	words := []uint32{0x7fffffff, 0xffffffff, 0x80000000, 0x00ffffff, 0x00010000, 0x10000000, 0xfffffffe, 0x7ffffff0, 5, 0}
	reps := c.N(6, 120)
	accepted, refused := 0, 0
	for _, tg := range targets {
		g := &gen{r: c.Rng(tg.label), maxDep: 4, maxLen: 3}
		for k := 0; k < reps; k++ {
			p := reflect.New(tg.t)
			tg.fill(g, p.Elem())
			b, err := encodeUA(p.Interface(), 0)
			if err != nil {
				continue // C01's concern
			}
			b = append([]byte{}, b...)
			try := func(in []byte, kind string) {
				mode := g.pick(2)
				q, n, err := w.decode(tg.label, tg.t, in, mode)
				c.Eval(tg.label + "/" + string(in))
				if err != nil {
					refused++
					return
				}
				accepted++
				if n > len(in) {
					c.Violate("overread:"+tg.label, "decoding consumed %d of %d bytes", n, len(in))
				}
				// an accepted value is a real value: it encodes and decodes to itself
				want := dumpUA(q.Elem())
				b2, err := encodeUA(q.Interface(), 0)
				if err != nil {
					c.Violate("reencode:"+tg.label, "value decoded from %s input %x cannot be encoded: %v\nvalue %s", kind, clipB(in), err, clip(want))
					return
				}
				q2, _, err := w.decode(tg.label, tg.t, b2, mode)
				if err != nil || dumpUA(q2.Elem()) != want {
					c.Violate("unstable:"+tg.label, "value decoded from %s input %x does not survive a round trip: %v\nfirst  %s\nsecond %s", kind, clipB(in), err, clip(want), clip(dumpUA(q2.Elem())))
				}
			}
			// truncations
			step := 1
			if max := c.N(24, 300); len(b) > max {
				step = len(b)/max + 1
			}
			for i := g.pick(step); i < len(b); i += step {
				_, n, err := w.decode(tg.label, tg.t, b[:i:i], g.pick(3))
				c.Eval(tg.label + "/" + string(b[:i]))
				if err == nil {
					c.Violate("truncated:"+tg.label, "decoding accepts the first %d of %d bytes of an encoding (consumed %d)\ninput %x", i, len(b), n, clipB(b[:i]))
				}
				c.Count("truncations", 1)
			}
			// corruptions
			for m := 0; m < c.N(8, 60) && len(b) > 0; m++ {
				in := append([]byte{}, b...)
				switch g.pick(6) {
				case 0, 1:
					if len(in) >= 4 {
						binary.LittleEndian.PutUint32(in[g.pick(len(in)-3):], words[g.pick(len(words))])
					}
				case 2:
					in[g.pick(len(in))] = byte(g.r.Intn(256))
				case 3:
					in[g.pick(len(in))] ^= 1 << uint(g.pick(8))
				case 4:
					i := g.pick(len(in))
					in = append(in[:i:i], in[i+g.pick(len(in)-i):]...)
				case 5:
					i := g.pick(len(in))
					ins := make([]byte, 1+g.pick(8))
					g.r.Read(ins)
					in = append(in[:i:i], append(ins, b[i:]...)...)
				}
				try(in, "mutated")
				c.Count("mutations", 1)
			}
		}
		for k := 0; k < c.N(20, 400); k++ {
			in := make([]byte, g.r.Intn(60))
			g.r.Read(in)
			if g.pick(2) == 0 {
				for i := range in {
					in[i] &= 0x1f
				}
			}
			try := in
			q, _, err := w.decode(tg.label, tg.t, try, g.pick(2))
			c.Eval(tg.label + "/" + string(in))
			_ = q
			if err == nil {
				accepted++
			} else {
				refused++
			}
			c.Count("random", 1)
		}
	}
	// length prefixes at every offset of one rich encoding per array-bearing type
	for _, tg := range targets {
		g := &gen{r: c.Rng("len/" + tg.label), maxDep: 3, maxLen: 3}
		p := reflect.New(tg.t)
		tg.fill(g, p.Elem())
		b, err := encodeUA(p.Interface(), 0)
		if err != nil || len(b) < 4 {
			continue
		}
		lim := c.N(120, 2000)
		for i := 0; i+4 <= len(b) && i < lim; i++ {
			for _, x := range []uint32{0x7fffffff, 0x0fffffff, 0x80000000} {
				in := append([]byte{}, b...)
				binary.LittleEndian.PutUint32(in[i:], x)
				w.decode(tg.label, tg.t, in, g.pick(2))
				c.Eval(tg.label + "/" + string(in))
				c.Count("length_attacks", 1)
			}
		}
	}
	bombs(c, w)
	c.Count("accepted", accepted)
	c.Count("refused", refused)
}

func le32(v int) []byte { return binary.LittleEndian.AppendUint32(nil, uint32(v)) }

// bombs: inputs made to exhaust stack, memory or time.
func bombs(c *Ctx, w *decodeWatch) {
	rep := func(n int, unit []byte, end []byte) []byte {
		return append(bytes.Repeat(unit, n), end...)
	}
	litSize := func(n int) []byte { return le32(n) }
	run := func(name string, t reflect.Type, b []byte) {
		_, _, err := w.decode("bomb:"+name, t, b, 0)
		c.Eval("bomb/" + name)
		_, _, err2 := w.decode("bomb:"+name, t, b, 1)
		c.Count("bombs", 2)
		c.Sample("bomb", map[string]any{"name": name, "bytes": len(b), "errors": fmt.Sprint(err, err2)})
	}
	for _, n := range []int{10, 50, 99, 100, 101, 200, 1000, 20000, c.N(400000, 4000000)} {
		// a variant in a variant in a variant
		run(fmt.Sprintf("variant-%d", n), tVariant, rep(n, []byte{24}, []byte{1, 1}))
		// DataValue in variant in DataValue
		run(fmt.Sprintf("datavalue-%d", n), tDataValue, rep(n, []byte{1, 23}, []byte{0}))
		// arrays of one variant
		run(fmt.Sprintf("variantarray-%d", n), tVariant, rep(n, append([]byte{24 | 0x80}, le32(1)...), []byte{1, 1}))
		// matrices of one variant
		{
			b := bytes.Repeat(append([]byte{24 | 0xc0}, le32(1)...), n)
			b = append(b, 1, 1)
			for i := 0; i < n && n <= 20000; i++ {
				b = append(b, le32(2)...)
				b = append(b, le32(1)...)
				b = append(b, le32(1)...)
			}
			run(fmt.Sprintf("variantmatrix-%d", n), tVariant, b)
		}
		// inner diagnostics
		run(fmt.Sprintf("diagnostic-%d", n), tDiag, rep(n, []byte{64}, []byte{0}))
		run(fmt.Sprintf("variantdiag-%d", n), tVariant, append([]byte{25}, rep(n, []byte{64}, []byte{0})...))
		// extension object containing a structure containing an extension object: ReadValueId? use SimpleAttributeOperand-free chain
		for _, st := range embeddable {
			if st.Typ == reflect.TypeOf(ua.LiteralOperand{}) {
				unit := append([]byte{22, 1, 0}, byte(st.ID), byte(st.ID>>8), 1)
				unit = append(unit, litSize(1)...)
				run(fmt.Sprintf("literal-%d", n), tVariant, rep(n, unit, []byte{1, 1}))
			}
			if st.Typ == reflect.TypeOf(ua.RequestHeader{}) || st.Typ == reflect.TypeOf(ua.MonitoringParameters{}) {
				// ClientHandle, SamplingInterval, Filter(ext), ...: nested in Filter
				if st.Typ == reflect.TypeOf(ua.MonitoringParameters{}) {
					hdr := make([]byte, 12)
					unit := append(append([]byte{}, hdr...), 1, 0, byte(st.ID), byte(st.ID>>8), 1)
					unit = append(unit, litSize(1)...)
					run(fmt.Sprintf("monparams-%d", n), st.Typ, rep(n, unit, make([]byte, 32)))
				}
			}
		}
	}
	// matrices with hostile dimensions, for every element type
	dims := [][]int{{0x7fffffff, 0}, {0, 0x7fffffff}, {-1, -1}, {-1, 5}, {0x10000, 0x10000}, {0x7fffffff, 0x7fffffff}, {2, 3}, {1, 1}, {0, 0}, {1000000, 0}, {100000, 0, 0}, {0x7fffffff, 0x7fffffff, 0}, {0x8000, 0x8000, 0}, {0, 0x7fffffff, 5},
		{-0x80000000, 1, 1}, {1, 1, 1}, {1}, {}, {2, 2, 2, 2}, {0x40000000, 4}, {0x10000, 0x10000, 0x10000}, {4, 0x40000000}, {0x7fffffff, 1, 0}, {1 << 16, 1 << 16, 1 << 16, 1 << 16}, {3, 1}, {1, 3}, {5, 0, 7}}
	elem := map[int][]byte{1: {1}, 2: {1}, 3: {1}, 4: {1, 0}, 5: {1, 0}, 6: le32(1), 7: le32(1), 8: make([]byte, 8), 9: make([]byte, 8), 10: make([]byte, 4), 11: make([]byte, 8), 12: le32(-1), 13: make([]byte, 8), 14: make([]byte, 16),
		15: le32(-1), 16: le32(-1), 17: {0, 1}, 18: {0, 1}, 19: make([]byte, 4), 20: append([]byte{0, 0}, le32(-1)...), 21: {0}, 22: {0, 0, 0}, 23: {0}, 24: {0}, 25: {0}}
	for ty := 0; ty < 64; ty++ {
		for _, d := range dims {
			for _, cnt := range []int{-1, 0, 1, 3, 16} {
				b := []byte{byte(ty) | 0xc0}
				b = append(b, le32(cnt)...)
				for i := 0; i < cnt; i++ {
					b = append(b, elem[ty]...)
				}
				b = append(b, le32(len(d))...)
				for _, x := range d {
					b = append(b, le32(x)...)
				}
				for mode := 0; mode < 2; mode++ {
					_, _, err := w.decode(fmt.Sprintf("matrix<%d>", ty), tVariant, b, mode)
					prod := 1.0
					for _, x := range d {
						prod *= float64(x)
					}
					n := cnt
					if n < 0 {
						n = 0
					}
					if err == nil && ty >= 1 && ty <= 25 && len(d) > 0 && (prod != float64(n) || hasNeg(d)) {
						c.Violate("dims", "variant of %d elements of type %d with dimensions %v is accepted", cnt, ty, d)
					}
				}
				c.Eval(fmt.Sprintf("matrix/%d/%v/%d", ty, d, cnt))
				// the same inside a DataValue: whatever follows must stay in step
				b = append([]byte{3}, b...)
				b = append(b, 0, 0, 0xff, 0x80)
				w.decode(fmt.Sprintf("dvmatrix<%d>", ty), tDataValue, b, 0)
			}
		}
	}
	// nothing but a length
	for _, t := range builtinTypes {
		for _, n := range []int{-1, -2, 0, 1, 1 << 20, 0x7fffffff, -0x80000000} {
			for pre := 0; pre < 256; pre++ {
				b := append([]byte{byte(pre)}, le32(n)...)
				w.decode(typeName(t), t, b, pre&1)
				c.Eval(fmt.Sprintf("len/%s/%d/%d", typeName(t), n, pre))
			}
			st := reflect.SliceOf(t)
			w.decode(typeName(st), st, le32(n), 0)
		}
	}
}

func hasNeg(d []int) bool {
	for _, x := range d {
		if x < 0 {
			return true
		}
	}
	return false
}
