package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/djherbis/buffer"
	"github.com/google/uuid"
	gop "github.com/gopcua/opcua/ua"
)

func init() {
	register("C01", &check{run: runC01, minEvals: 10000, minDistinct: 5000,
		rule: "distinct (type, encoded bytes) pairs; a case counts once all applicable oracles judged it: round trip, byte consumption, gopcua decode, reference encodings decode"})
}

type countReader struct {
	b []byte
	n int
}

func (r *countReader) Read(p []byte) (int, error) {
	if r.n >= len(r.b) {
		return 0, io.EOF
	}
	k := copy(p, r.b[r.n:])
	r.n += k
	return k, nil
}

var ectx = ua.NewEncodingContext()

// encodeUA encodes the value pointed to by p, through a plain writer or through the buffer type the channels use.
func encodeUA(p any, mode int) (out []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	switch mode {
	case 0:
		var buf bytes.Buffer
		err = ua.NewBinaryEncoder(&buf, ectx).Encode(p)
		return buf.Bytes(), err
	default:
		buf := buffer.NewPartitionAt(buffer.NewMemPoolAt(int64(64 << (uint(mode) % 8))))
		if err = ua.NewBinaryEncoder(buf, ectx).Encode(p); err != nil {
			return nil, err
		}
		out = make([]byte, buf.Len())
		_, err = io.ReadFull(buf, out)
		return out, err
	}
}

// decodeUA decodes into p and tells how many bytes were consumed.
func decodeUA(b []byte, p any, mode int) (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	switch mode {
	case 0:
		r := bytes.NewReader(b)
		err = ua.NewBinaryDecoder(r, ectx).Decode(p)
		return len(b) - r.Len(), err
	case 1:
		buf := buffer.NewPartitionAt(buffer.NewMemPoolAt(128))
		if len(b) > 0 {
			buf.Write(b)
		}
		err = ua.NewBinaryDecoder(buf, ectx).Decode(p)
		return len(b) - int(buf.Len()), err
	default:
		r := &countReader{b: b}
		err = ua.NewBinaryDecoder(r, ectx).Decode(p)
		return r.n, err
	}
}

func typeName(t reflect.Type) string { return strings.ReplaceAll(t.String(), " ", "") }

// roundTrip judges one value (p is a pointer to it).
func roundTrip(c *Ctx, g *gen, label string, p reflect.Value, id uint32) {
	v := p.Elem()
	want := dumpUA(v)
	mode := g.pick(4)
	b, err := encodeUA(p.Interface(), mode)
	if err != nil {
		c.Violate("encode:"+label, "encoding %s failed: %v\nvalue %s", label, err, clip(want))
		return
	}
	if dumpUA(v) != want {
		c.Violate("encode-mutates:"+label, "encoding changed the value itself")
	}
	c.Eval(label + "/" + string(b))
	tailBytes := make([]byte, g.pick(5))
	g.r.Read(tailBytes)
	full := append(append([]byte{}, b...), tailBytes...)
	q := reflect.New(v.Type())
	n, err := decodeUA(full, q.Interface(), g.pick(3))
	if err != nil {
		c.Violate("decode:"+label, "decoding the encoding of %s failed: %v\nvalue %s\nbytes %x", label, err, clip(want), clipB(b))
		return
	}
	same := true
	if got := dumpUA(q.Elem()); got != want {
		same = false
		c.Violate("roundtrip:"+label, "round trip of %s differs\nwant %s\ngot  %s\nbytes %x", label, clip(want), clip(got), clipB(b))
	}
	if n != len(b) {
		c.Violate("consumed:"+label, "decoding %s consumed %d of %d bytes\nvalue %s", label, n, len(b), clip(want))
	}
	// decoded value must not alias or depend on the input buffer
	for i := range full {
		full[i] ^= 0xff
	}
	if got := dumpUA(q.Elem()); got != want && same {
		c.Violate("alias:"+label, "decoded %s changed when its input buffer was overwritten", label)
	}
	// reference encoder -> library decoder
	e := &refEnc{r: g.r}
	e.value(v)
	q2 := reflect.New(v.Type())
	n, err = decodeUA(e.b, q2.Interface(), g.pick(3))
	if err != nil {
		c.Violate("refdecode:"+label, "a legal encoding of %s is not decoded: %v\nvalue %s\nbytes %x", label, err, clip(want), clipB(e.b))
	} else if got := dumpUA(q2.Elem()); got != want || n != len(e.b) {
		c.Violate("refdecode:"+label, "a legal encoding of %s decodes differently (consumed %d of %d)\nwant %s\ngot  %s\nbytes %x", label, n, len(e.b), clip(want), clip(got), clipB(e.b))
	}
	c.Count("reference_encodings_decoded", 1)
	// library bytes -> gopcua
	if g.interop && !gopSkip[label] {
		gopJudge(c, label, v, id, b, want)
	}
	c.Sample(label, map[string]any{"type": label, "bytes": fmt.Sprintf("%x", clipB(b))})
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

func clipB(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// gopJudge lets the independent codec decode the bytes and compares field by field.
func gopJudge(c *Ctx, label string, v reflect.Value, id uint32, b []byte, want string) {
	var sb strings.Builder
	n := 0
	var err error
	switch {
	case id != 0:
		// wrap the body as an extension object so that gopcua finds its type
		body := append([]byte{2, 0, 0}, binary.LittleEndian.AppendUint32(nil, id)...)
		body = append(body, 1)
		body = binary.LittleEndian.AppendUint32(body, uint32(len(b)))
		body = append(body, b...)
		eo := new(gop.ExtensionObject)
		n, err = eo.Decode(body)
		if err == nil && eo.Value == nil && len(b) > 0 {
			c.Violate("interop:"+label, "gopcua knows no structure with encoding id i=%d, under which %s is registered", id, label)
			return
		}
		if err == nil && eo.Value != nil {
			k, err2 := gop.Decode(b, eo.Value)
			if err2 == nil && k != len(b) {
				c.Violate("interop:"+label, "gopcua consumes %d of %d bytes of a %s\nvalue %s", k, len(b), label, clip(want))
				return
			}
			dumpGop(&sb, reflect.ValueOf(eo.Value))
		} else if err == nil {
			sb.WriteString("{}")
		}
		_ = n
	case v.Type() == tVariant:
		x := new(gop.Variant)
		if n, err = x.Decode(b); err == nil {
			gopVariant(&sb, x)
		}
	case v.Type() == tDataValue:
		x := new(gop.DataValue)
		if n, err = x.Decode(b); err == nil {
			dumpGop(&sb, reflect.ValueOf(x))
		}
	default:
		return
	}
	c.Count("gopcua_decoded", 1)
	if err != nil {
		c.Violate("interop:"+label, "gopcua cannot decode the encoding of %s: %v\nvalue %s\nbytes %x", label, err, clip(want), clipB(b))
		return
	}
	if got := sb.String(); got != want {
		c.Violate("interop:"+label, "gopcua decodes %s to a different value\nwant %s\ngot  %s\nbytes %x", label, clip(want), clip(got), clipB(b))
	}
}

// gopSkip: structures whose definition in gopcua follows a later specification version, or that it lacks.
var gopSkip = map[string]bool{"ua.SessionlessInvokeRequestType": true, "ua.ProgramDiagnostic2DataType": true, "ua.DecimalDataType": true}

func runC01(c *Ctx) {
	types := registeredTypes()
	if len(types) < 150 {
		c.Violate("registry", "only %d structure types are registered", len(types))
	}
	c.Count("structure_types", len(types))
	for _, st := range types {
		if st.Typ.Kind() == reflect.Struct && st.Typ.Size() < 200 && !gopSkip[typeName(st.Typ)] {
			embeddable = append(embeddable, st)
		}
		// registry is a bijection
		id, ok := ua.FindBinaryEncodingIDForType(st.Typ)
		if !ok || id != ua.NewExpandedNodeID(ua.NewNodeIDNumeric(0, st.ID)) {
			c.Violate("registry:"+typeName(st.Typ), "type %s registered under i=%d is written as %v", st.Typ, st.ID, id)
		}
	}
	reps := c.N(30, 400)
	for _, st := range types {
		g := &gen{r: c.Rng(typeName(st.Typ)), maxDep: 4, maxLen: 3}
		for k := 0; k < reps; k++ {
			g.interop = k%2 == 0
			p := reflect.New(st.Typ)
			if k > 0 {
				g.fill(p.Elem(), 2+k%4)
			}
			roundTrip(c, g, typeName(st.Typ), p, st.ID)
		}
	}
	// every built-in type, alone
	type slot struct {
		name string
		t    reflect.Type
	}
	var slots []slot
	for _, t := range builtinTypes {
		slots = append(slots, slot{typeName(t), t})
	}
	for _, s := range slots {
		g := &gen{r: c.Rng("b/" + s.name), maxDep: 3, maxLen: 4}
		for k := 0; k < c.N(150, 3000); k++ {
			g.interop = k%2 == 0 && (s.t == tVariant || s.t == tDataValue)
			p := reflect.New(s.t)
			g.fill(p.Elem(), 3)
			roundTrip(c, g, s.name, p, 0)
		}
	}
	// every variant type at every rank
	for _, t := range builtinTypes {
		for rank := 0; rank <= 3; rank++ {
			lab := fmt.Sprintf("Variant<%s,%d>", typeName(t), rank)
			g := &gen{r: c.Rng(lab), maxDep: 3, maxLen: 5}
			for k := 0; k < c.N(60, 1200); k++ {
				g.interop = k%2 == 0
				var x ua.Variant = g.variantOf(t, rank, 3)
				p := reflect.ValueOf(&x)
				roundTrip(c, g, lab, p, 0)
			}
		}
	}
	// typed Write/Read methods on their own
	typedMethods(c)
	// large values: more than one buffer page
	g := &gen{r: c.Rng("large"), maxDep: 3, maxLen: 3}
	for _, n := range []int{1, 127, 128, 129, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
		s := strings.Repeat("ab", n/2+1)[:n]
		vals := []ua.Variant{s, ua.ByteString(s), []byte(s), make([]uint32, n/4), []string{s, "x", s}, []ua.Variant{s, int32(5)}}
		for _, x := range vals {
			x := x
			roundTrip(c, g, "large", reflect.ValueOf(&x), 0)
		}
		wv := ua.WriteValue{NodeID: ua.NewNodeIDNumeric(0, 5), Value: ua.DataValue{Value: s}}
		roundTrip(c, g, "large-struct", reflect.ValueOf(&wv), 0)
		var eo ua.ExtensionObject = wv
		for mode := 0; mode < 4; mode++ {
			b, err := encodeUA(&eo, mode)
			if err != nil {
				c.Violate("encode:large-extension-object", "extension object with a %d byte string (writer %d): %v", n, mode, err)
				continue
			}
			var out ua.ExtensionObject
			k, err := decodeUA(b, &out, mode%3)
			if err != nil || k != len(b) || dumpUA(reflect.ValueOf(&out).Elem()) != dumpUA(reflect.ValueOf(&eo).Elem()) {
				c.Violate("roundtrip:large-extension-object", "extension object with a %d byte string: err %v consumed %d of %d", n, err, k, len(b))
			}
			c.Eval(fmt.Sprintf("leo/%d/%d", n, mode))
		}
	}
	// concurrency: first use of type codecs from many goroutines is covered by fresh processes in Z01
	// sequences: several values through one encoder/decoder keep their boundaries
	for k := 0; k < c.N(300, 5000); k++ {
		var buf bytes.Buffer
		enc := ua.NewBinaryEncoder(&buf, ectx)
		var ps []reflect.Value
		for i := 0; i < 2+g.pick(6); i++ {
			t := builtinTypes[g.pick(len(builtinTypes))]
			if g.pick(3) == 0 {
				t = types[g.pick(len(types))].Typ
			}
			p := reflect.New(t)
			g.fill(p.Elem(), 2)
			if err := enc.Encode(p.Interface()); err != nil {
				c.Violate("encode:"+typeName(t), "encoding %s failed: %v", t, err)
				return
			}
			ps = append(ps, p)
		}
		dec := ua.NewBinaryDecoder(&buf, ectx)
		for i, p := range ps {
			q := reflect.New(p.Type().Elem())
			if err := dec.Decode(q.Interface()); err != nil || dumpUA(q.Elem()) != dumpUA(p.Elem()) {
				c.Violate("sequence", "value %d (%s) of a sequence of %d decodes differently: %v", i, p.Type().Elem(), len(ps), err)
				break
			}
		}
		if buf.Len() != 0 {
			c.Violate("sequence", "%d bytes left after decoding a sequence", buf.Len())
		}
		c.Eval(fmt.Sprintf("seq/%d", k))
	}
	namespaceEncoding(c)
}

type nsCtx []string

func (n nsCtx) NamespaceURIs() []string { return n }

// VerifStruct is registered under a namespace URI, as applications do.
type VerifStruct struct {
	A int32
	B string
	C []ua.Variant
	D ua.ExtensionObject
}

// namespaceEncoding: types registered under a namespace URI follow each context's namespace table.
func namespaceEncoding(c *Ctx) {
	ua.RegisterBinaryEncodingID(reflect.TypeOf(VerifStruct{}), ua.ParseExpandedNodeID("nsu=urn:verif:types;i=4711"))
	g := &gen{r: c.Rng("ns"), maxLen: 3}
	for k := 0; k < c.N(100, 1000); k++ {
		var x VerifStruct
		g.fill(reflect.ValueOf(&x).Elem(), 3)
		n := 1 + g.pick(5)
		table := nsCtx{"http://opcfoundation.org/UA/"}
		for i := 1; i < n; i++ {
			table = append(table, fmt.Sprintf("urn:x%d", i))
		}
		table = append(table, "urn:verif:types")
		var buf bytes.Buffer
		var v ua.Variant = x
		if err := ua.NewBinaryEncoder(&buf, table).Encode(&v); err != nil {
			c.Violate("ns-encode", "variant of a type in namespace %d: %v", n, err)
			continue
		}
		b := append([]byte{}, buf.Bytes()...)
		if want := []byte{22, 1, byte(n), 0x67, 0x12}; !bytes.HasPrefix(b, want) {
			c.Violate("ns-encode", "variant of a type in namespace %d starts with %x, want %x", n, b[:5], want)
		}
		var out ua.Variant
		if err := ua.NewBinaryDecoder(&buf, table).Decode(&out); err != nil || dumpAny(out) != dumpAny(x) {
			c.Violate("ns-decode", "variant of a type in namespace %d decodes to %v, err %v", n, clip(dumpAny(out)), err)
		}
		c.Eval("ns/" + string(b))
	}
}

// typedMethods exercises the exported Write*/Read* pairs by reflection.
func typedMethods(c *Ctx) {
	g := &gen{r: c.Rng("typed"), maxLen: 6}
	et := reflect.TypeOf(&ua.BinaryEncoder{})
	for i := 0; i < et.NumMethod(); i++ {
		m := et.Method(i)
		if !strings.HasPrefix(m.Name, "Write") || m.Type.NumIn() != 2 {
			continue
		}
		for k := 0; k < c.N(40, 600); k++ {
			var buf bytes.Buffer
			arg := reflect.New(m.Type.In(1)).Elem()
			g.fill(arg, 2)
			enc := ua.NewBinaryEncoder(&buf, ectx)
			if e := reflect.ValueOf(enc).MethodByName(m.Name).Call([]reflect.Value{arg})[0]; !e.IsNil() {
				c.Violate("typed:"+m.Name, "%s failed: %v on %s", m.Name, e, clip(dumpUA(arg)))
				continue
			}
			b := append([]byte{}, buf.Bytes()...)
			dec := ua.NewBinaryDecoder(&buf, ectx)
			rm := reflect.ValueOf(dec).MethodByName("Read" + m.Name[5:])
			if !rm.IsValid() {
				continue
			}
			out := reflect.New(m.Type.In(1))
			var e reflect.Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.Violate("typed:"+m.Name, "Read%s panics on its own encoding: %v", m.Name[5:], r)
					}
				}()
				e = rm.Call([]reflect.Value{out})[0]
			}()
			if !e.IsValid() {
				continue
			}
			if !e.IsNil() || dumpUA(out.Elem()) != dumpUA(arg) || buf.Len() != 0 {
				c.Violate("typed:"+m.Name, "Read%s of Write%s: %v want %s got %s left %d", m.Name[5:], m.Name[5:], e, clip(dumpUA(arg)), clip(dumpUA(out.Elem())), buf.Len())
			}
			c.Eval(m.Name + string(b))
		}
	}
}

var _ = time.Now
var _ = uuid.Nil
