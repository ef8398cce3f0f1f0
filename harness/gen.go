package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
	gop "github.com/gopcua/opcua/ua"
)

// gen makes random OPC UA values.
type gen struct {
	r       *rand.Rand
	interop bool // keep within what the reference codec supports (times, matrix dimensions)
	maxDep  int
	maxLen  int
}

var (
	tTime      = reflect.TypeOf(time.Time{})
	tUUID      = reflect.TypeOf(uuid.UUID{})
	tNodeID    = reflect.TypeOf((*ua.NodeID)(nil)).Elem()
	tExpanded  = reflect.TypeOf(ua.ExpandedNodeID{})
	tVariant   = reflect.TypeOf((*ua.Variant)(nil)).Elem()
	tExtObj    = reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem()
	tDataValue = reflect.TypeOf(ua.DataValue{})
	tDiag      = reflect.TypeOf(ua.DiagnosticInfo{})
	tByteStr   = reflect.TypeOf(ua.ByteString(""))
	tXML       = reflect.TypeOf(ua.XMLElement(""))
	tStatus    = reflect.TypeOf(ua.StatusCode(0))
	tQName     = reflect.TypeOf(ua.QualifiedName{})
	tLText     = reflect.TypeOf(ua.LocalizedText{})
)

// structType is a registered structure.
type structType struct {
	ID  uint32
	Typ reflect.Type
}

// registeredTypes enumerates all structure types known to the library in namespace 0.
func registeredTypes() []structType {
	var out []structType
	for i := uint32(1); i < 40000; i++ {
		if t, ok := ua.FindTypeForBinaryEncodingID(ua.NewExpandedNodeID(ua.NewNodeIDNumeric(0, i))); ok {
			out = append(out, structType{i, t})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// embeddable: structures the generator may put into extension objects.
var embeddable []structType

var builtinTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(""), tTime, tUUID, tByteStr, tXML, tNodeID, tExpanded, tStatus, tQName, tLText, tExtObj, tDataValue, tVariant, tDiag,
}

// builtinNumber is the variant type number (spec part 6, table 1) of builtinTypes[i].
func builtinNumber(t reflect.Type) byte {
	for i, b := range builtinTypes {
		if b == t {
			return byte(i + 1)
		}
	}
	return 0
}

func (g *gen) pick(n int) int { return g.r.Intn(n) }

var edgeU64 = []uint64{0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func (g *gen) u64() uint64 {
	if g.pick(2) == 0 {
		return edgeU64[g.pick(len(edgeU64))]
	}
	return g.r.Uint64() >> uint(g.pick(64))
}

func (g *gen) str() string {
	switch g.pick(8) {
	case 0:
		return ""
	case 1:
		return "Ω≈ç√ 日本 \x00 😀"
	case 2:
		return strings.Repeat("x", g.pick(300))
	case 3:
		return "ns=3;s=a;b=%3B/1:x"
	}
	n := g.pick(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + g.pick(95))
	}
	return string(b)
}

func (g *gen) bytes() string {
	n := g.pick(20)
	if g.pick(10) == 0 {
		n = g.pick(700)
	}
	b := make([]byte, n)
	g.r.Read(b)
	return string(b)
}

func (g *gen) time() time.Time {
	if g.interop {
		if g.pick(10) == 0 {
			return time.Time{}
		}
		return time.Unix(g.r.Int63n(7000000000), g.r.Int63n(1e9)).UTC()
	}
	switch g.pick(12) {
	case 0:
		return time.Time{}
	case 1:
		return time.Date(1601, 1, 1, 0, 0, 0, g.pick(400), time.UTC)
	case 2:
		return time.Date(1500+g.pick(100), 5, 6, 1, 2, 3, 4, time.UTC)
	case 3:
		return time.Date(9999, 12, 31, 23, 59, 58+g.pick(2), 999999999, time.UTC)
	case 4:
		return time.Date(10000+g.pick(20000), 1, 1, 0, 0, 0, 0, time.UTC)
	case 5:
		return time.Date(1601+g.pick(8398), 1, 2, 3, 4, 5, g.pick(1e9), time.FixedZone("x", 3600*(g.pick(25)-12)))
	case 6:
		return time.Unix(0, g.r.Int63()).UTC()
	case 7:
		return time.Date(31000+g.pick(200000), 1, 1, 0, 0, 0, 0, time.UTC)
	}
	return time.Unix(g.r.Int63n(4e9), g.r.Int63n(1e9))
}

func (g *gen) uuid() uuid.UUID {
	var u uuid.UUID
	if g.pick(8) > 0 {
		g.r.Read(u[:])
	}
	return u
}

func (g *gen) nodeID() ua.NodeID {
	ns := uint16(g.u64())
	if g.pick(3) == 0 {
		ns = uint16(g.pick(3))
	}
	switch g.pick(9) {
	case 0:
		return nil
	case 1, 2, 3:
		return ua.NewNodeIDNumeric(ns, uint32(g.u64()))
	case 4, 5:
		return ua.NewNodeIDString(ns, g.str())
	case 6, 7:
		return ua.NewNodeIDGUID(ns, g.uuid())
	}
	return ua.NewNodeIDOpaque(ns, ua.ByteString(g.bytes()))
}

func (g *gen) expanded() ua.ExpandedNodeID {
	e := ua.ExpandedNodeID{NodeID: g.nodeID()}
	if g.pick(3) == 0 {
		e.NamespaceURI = "urn:" + g.str()
	}
	if g.pick(3) == 0 {
		e.ServerIndex = uint32(g.u64())
	}
	return e
}

func (g *gen) diag(dep int) ua.DiagnosticInfo {
	var d ua.DiagnosticInfo
	p := func() *int32 {
		if g.pick(2) == 0 {
			return nil
		}
		v := int32(g.u64())
		return &v
	}
	d.SymbolicID, d.NamespaceURI, d.Locale, d.LocalizedText = p(), p(), p(), p()
	if g.pick(2) == 0 {
		s := g.str()
		d.AdditionalInfo = &s
	}
	if g.pick(2) == 0 {
		s := ua.StatusCode(g.u64())
		d.InnerStatusCode = &s
	}
	if dep > 0 && g.pick(3) == 0 {
		i := g.diag(dep - 1)
		d.InnerDiagnosticInfo = &i
	}
	return d
}

func (g *gen) dataValue(dep int) ua.DataValue {
	var d ua.DataValue
	if g.pick(5) > 0 {
		d.Value = g.variant(dep - 1)
	}
	if g.pick(2) == 0 {
		d.StatusCode = ua.StatusCode(g.u64())
	}
	if g.pick(2) == 0 {
		d.SourceTimestamp = g.time()
	}
	if g.pick(3) == 0 {
		d.SourcePicoseconds = uint16(g.u64())
	}
	if g.pick(2) == 0 {
		d.ServerTimestamp = g.time()
	}
	if g.pick(3) == 0 {
		d.ServerPicoseconds = uint16(g.u64())
	}
	return d
}

func (g *gen) extObj(dep int) ua.ExtensionObject {
	if dep <= 0 || len(embeddable) == 0 || g.pick(6) == 0 {
		return nil
	}
	st := embeddable[g.pick(len(embeddable))]
	v := reflect.New(st.Typ).Elem()
	g.fill(v, dep-1)
	return v.Interface()
}

// scalarTypes: what a Variant may hold as a scalar (a scalar Variant or nil extension object is not a value).
func (g *gen) variant(dep int) ua.Variant {
	if g.pick(12) == 0 {
		return nil
	}
	t := builtinTypes[g.pick(len(builtinTypes))]
	rank := 0
	switch g.pick(6) {
	case 0, 1:
		rank = 1
	case 2:
		rank = 2
	case 3:
		rank = 3
	}
	return g.variantOf(t, rank, dep)
}

func (g *gen) variantOf(t reflect.Type, rank, dep int) ua.Variant {
	if rank == 0 {
		if t == tVariant {
			t = builtinTypes[g.pick(12)]
		}
		if dep <= 0 && (t == tExtObj || t == tDataValue) {
			t = builtinTypes[g.pick(12)]
		}
		v := reflect.New(t).Elem()
		g.fill(v, dep-1)
		if (t == tNodeID || t == tExtObj) && v.IsNil() {
			return nil
		}
		return v.Interface()
	}
	if dep <= 0 && (t == tExtObj || t == tDataValue || t == tVariant) {
		t = builtinTypes[g.pick(12)]
	}
	dims := make([]int, rank)
	for i := range dims {
		dims[i] = 1 + g.pick(3)
		if !g.interop && g.pick(12) == 0 {
			dims[i] = 0
		}
	}
	if rank == 1 {
		dims[0] = g.pick(g.maxLen + 1)
	}
	return g.matrix(t, dims, dep).Interface()
}

func (g *gen) matrix(t reflect.Type, dims []int, dep int) reflect.Value {
	st := t
	for range dims {
		st = reflect.SliceOf(st)
	}
	s := reflect.MakeSlice(st, dims[0], dims[0])
	for i := 0; i < dims[0]; i++ {
		if len(dims) == 1 {
			g.fill(s.Index(i), dep-1)
		} else {
			s.Index(i).Set(g.matrix(t, dims[1:], dep))
		}
	}
	return s
}

// fill sets v to a random value of its type.
func (g *gen) fill(v reflect.Value, dep int) {
	switch v.Type() {
	case tTime:
		v.Set(reflect.ValueOf(g.time()))
		return
	case tUUID:
		v.Set(reflect.ValueOf(g.uuid()))
		return
	case tNodeID:
		if n := g.nodeID(); n != nil {
			v.Set(reflect.ValueOf(n))
		}
		return
	case tExpanded:
		v.Set(reflect.ValueOf(g.expanded()))
		return
	case tVariant:
		if x := g.variant(dep); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	case tExtObj:
		if x := g.extObj(dep); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	case tDataValue:
		v.Set(reflect.ValueOf(g.dataValue(dep)))
		return
	case tDiag:
		v.Set(reflect.ValueOf(g.diag(2)))
		return
	case tByteStr:
		v.SetString(g.bytes())
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.pick(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.u64()) >> uint(64-v.Type().Bits()))
		if g.pick(2) == 0 {
			v.SetInt(int64(g.pick(100)) - 50)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := g.u64()
		v.SetUint(u & (1<<uint(v.Type().Bits()) - 1))
	case reflect.Float32:
		f := math.Float32frombits(uint32(g.r.Uint32()))
		if f != f {
			f = float32(g.pick(100)) / 8
		}
		switch g.pick(8) {
		case 0:
			f = float32(math.Inf(1))
		case 1:
			f = float32(math.Copysign(0, -1))
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		f := math.Float64frombits(g.r.Uint64())
		switch g.pick(8) {
		case 0:
			f = math.Inf(-1)
		case 1:
			f = math.NaN()
		case 2:
			f = math.MaxFloat64
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Slice:
		n := g.pick(g.maxLen + 1)
		if dep <= 0 && n > 1 {
			n = 1
		}
		if n == 0 && g.pick(2) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), dep-1)
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				g.fill(v.Field(i), dep-1)
			}
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), dep-1)
	case reflect.Interface:
	default:
		panic("gen: " + v.Type().String())
	}
}

// ---- canonical dumps -------------------------------------------------------

func ticksOf(t time.Time) int64 {
	const max = int64(2650467743990000000)
	sec := t.Unix() + 11644473600
	if sec < 0 {
		return 0
	}
	if sec >= max/10000000 {
		return math.MaxInt64
	}
	tk := sec*10000000 + int64(t.Nanosecond())/100
	if tk >= max {
		return math.MaxInt64
	}
	return tk
}

func dumpNodeID(sb *strings.Builder, n ua.NodeID, dropNS bool) {
	ns := func(x uint16) uint16 {
		if dropNS {
			return 0
		}
		return x
	}
	switch x := n.(type) {
	case nil:
		sb.WriteString("null")
	case ua.NodeIDNumeric:
		dumpID(sb, ns(x.NamespaceIndex), "i", fmt.Sprint(x.ID), x.ID == 0)
	case ua.NodeIDString:
		dumpID(sb, ns(x.NamespaceIndex), "s", fmt.Sprintf("%x", x.ID), x.ID == "")
	case ua.NodeIDGUID:
		dumpID(sb, ns(x.NamespaceIndex), "g", fmt.Sprintf("%x", x.ID[:]), x.ID == uuid.UUID{})
	case ua.NodeIDOpaque:
		dumpID(sb, ns(x.NamespaceIndex), "b", fmt.Sprintf("%x", string(x.ID)), x.ID == "")
	default:
		fmt.Fprintf(sb, "?%T", n)
	}
}

func dumpID(sb *strings.Builder, ns uint16, k, id string, zero bool) {
	if ns == 0 && zero {
		sb.WriteString("null")
		return
	}
	fmt.Fprintf(sb, "%d;%s=%s", ns, k, id)
}

// dumpUA renders a library value canonically (null == empty, ticks for times).
func dumpUA(v reflect.Value) string {
	var sb strings.Builder
	dumpUATo(&sb, v)
	return sb.String()
}

func dumpAny(x any) string {
	var sb strings.Builder
	v := reflect.ValueOf(&x).Elem()
	if v.IsNil() {
		return "nil"
	}
	dumpUATo(&sb, v.Elem())
	return sb.String()
}

func dumpUATo(sb *strings.Builder, v reflect.Value) {
	switch v.Type() {
	case tTime:
		fmt.Fprintf(sb, "t%d", ticksOf(v.Interface().(time.Time)))
		return
	case tUUID:
		u := v.Interface().(uuid.UUID)
		fmt.Fprintf(sb, "g%x", u[:])
		return
	case tNodeID:
		n, _ := v.Interface().(ua.NodeID)
		dumpNodeID(sb, n, false)
		return
	case tExpanded:
		e := v.Interface().(ua.ExpandedNodeID)
		fmt.Fprintf(sb, "{%d,%x,", e.ServerIndex, e.NamespaceURI)
		dumpNodeID(sb, e.NodeID, e.NamespaceURI != "")
		sb.WriteString("}")
		return
	case tVariant:
		if v.IsNil() {
			sb.WriteString("V()")
			return
		}
		dumpVariant(sb, v.Elem())
		return
	case tExtObj:
		if v.IsNil() {
			sb.WriteString("X()")
			return
		}
		dumpExt(sb, v.Elem())
		return
	case tDataValue:
		d := v.Interface().(ua.DataValue)
		sb.WriteString("D(")
		if d.Value == nil {
			sb.WriteString("V()")
		} else {
			dumpVariant(sb, reflect.ValueOf(d.Value))
		}
		fmt.Fprintf(sb, ",%d,t%d,%d,t%d,%d)", uint32(d.StatusCode), ticksOf(d.SourceTimestamp), d.SourcePicoseconds, ticksOf(d.ServerTimestamp), d.ServerPicoseconds)
		return
	case tDiag:
		dumpDiag(sb, v.Interface().(ua.DiagnosticInfo))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Kind() == reflect.Int32 && v.Type().PkgPath() != "" {
			fmt.Fprint(sb, uint32(v.Int())) // enumeration
			return
		}
		fmt.Fprint(sb, v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		dumpFloat(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%x.", v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x.", v.Bytes())
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpUATo(sb, v.Index(i))
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nilptr")
			return
		}
		dumpUATo(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString("{")
		dumpFields(sb, v)
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "?%s", v.Type())
	}
}

func dumpFields(sb *strings.Builder, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		fmt.Fprintf(sb, "%s:", strings.ToLower(f.Name))
		dumpUATo(sb, v.Field(i))
		sb.WriteString(" ")
	}
}

func dumpFloat(sb *strings.Builder, f float64) {
	if f != f {
		sb.WriteString("NaN")
		return
	}
	fmt.Fprintf(sb, "f%x", math.Float64bits(f))
}

func dumpExt(sb *strings.Builder, v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	id, ok := ua.FindBinaryEncodingIDForType(v.Type())
	if !ok {
		fmt.Fprintf(sb, "X?%s", v.Type())
		return
	}
	fmt.Fprintf(sb, "X(%s ", id.String())
	dumpUATo(sb, v)
	sb.WriteString(")")
}

func dumpDiag(sb *strings.Builder, d ua.DiagnosticInfo) {
	sb.WriteString("G(")
	p := func(k string, x *int32) {
		if x != nil {
			fmt.Fprintf(sb, "%s=%d ", k, *x)
		}
	}
	p("sym", d.SymbolicID)
	p("ns", d.NamespaceURI)
	p("loc", d.Locale)
	p("txt", d.LocalizedText)
	if d.AdditionalInfo != nil {
		fmt.Fprintf(sb, "add=%x ", *d.AdditionalInfo)
	}
	if d.InnerStatusCode != nil {
		fmt.Fprintf(sb, "st=%d ", uint32(*d.InnerStatusCode))
	}
	if d.InnerDiagnosticInfo != nil {
		dumpDiag(sb, *d.InnerDiagnosticInfo)
	}
	sb.WriteString(")")
}

// dumpVariant renders type number, dimensions and flat elements.
func dumpVariant(sb *strings.Builder, v reflect.Value) {
	t := v.Type()
	rank := 0
	for t.Kind() == reflect.Slice && builtinNumber(t) == 0 {
		t = t.Elem()
		rank++
	}
	if t == tByteStr {
		// ByteString is a string kind: never a slice
	}
	n := builtinNumber(t)
	if n == 0 && rank == 0 {
		if v.Type().Implements(tNodeID) {
			var one strings.Builder
			dumpNodeID(&one, v.Interface().(ua.NodeID), false)
			if one.String() == "null" {
				sb.WriteString("V()")
				return
			}
			fmt.Fprintf(sb, "V(17 %s)", one.String())
			return
		}
		sb.WriteString("V(22 ")
		dumpExt(sb, v)
		sb.WriteString(")")
		return
	}
	if n == 0 {
		fmt.Fprintf(sb, "V?%s", v.Type())
		return
	}
	if rank == 0 {
		var one strings.Builder
		dumpUATo(&one, v)
		if n == 17 && one.String() == "null" {
			sb.WriteString("V()") // a null NodeID in a scalar Variant is indistinguishable from no value in Go
			return
		}
		fmt.Fprintf(sb, "V(%d %s)", n, one.String())
		return
	}
	var dims []int
	x := v
	total := 1
	for i := 0; i < rank; i++ {
		dims = append(dims, x.Len())
		total *= x.Len()
		if x.Len() == 0 {
			break
		}
		x = x.Index(0)
	}
	if total == 0 {
		fmt.Fprintf(sb, "V(%d rank%d empty)", n, rank)
		return
	}
	fmt.Fprintf(sb, "V(%d %v ", n, dims)
	var walk func(x reflect.Value, d int)
	walk = func(x reflect.Value, d int) {
		if d == rank {
			dumpUATo(sb, x)
			sb.WriteString(" ")
			return
		}
		if d < len(dims) && x.Len() != dims[d] {
			sb.WriteString("RAGGED ")
		}
		for i := 0; i < x.Len(); i++ {
			walk(x.Index(i), d+1)
		}
	}
	walk(v, 0)
	sb.WriteString(")")
}

// ---- dump of gopcua values in the same notation ---------------------------------

func gopNodeID(sb *strings.Builder, n *gop.NodeID, dropNS bool) {
	if n == nil {
		sb.WriteString("null")
		return
	}
	ns := n.Namespace()
	if dropNS {
		ns = 0
	}
	b, err := n.Encode()
	if err != nil {
		fmt.Fprintf(sb, "?%v", err)
		return
	}
	switch b[0] & 0x0f {
	case 0, 1, 2:
		dumpID(sb, ns, "i", fmt.Sprint(n.IntID()), n.IntID() == 0)
	case 3:
		dumpID(sb, ns, "s", fmt.Sprintf("%x", b[min(7, len(b)):]), len(b) <= 7)
	case 4:
		u := b[3:]
		s := fmt.Sprintf("%08x%04x%04x%x", binary.LittleEndian.Uint32(u), binary.LittleEndian.Uint16(u[4:]), binary.LittleEndian.Uint16(u[6:]), u[8:])
		dumpID(sb, ns, "g", s, strings.Trim(s, "0") == "")
	case 5:
		dumpID(sb, ns, "b", fmt.Sprintf("%x", b[min(7, len(b)):]), len(b) <= 7)
	}
}

func gopTicks(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return ticksOf(t)
}

func dumpGop(sb *strings.Builder, v reflect.Value) {
	switch x := v.Interface().(type) {
	case time.Time:
		fmt.Fprintf(sb, "t%d", gopTicks(x))
		return
	case *gop.GUID:
		fmt.Fprintf(sb, "g%08x%04x%04x%x", x.Data1, x.Data2, x.Data3, x.Data4)
		return
	case *gop.NodeID:
		gopNodeID(sb, x, false)
		return
	case *gop.ExpandedNodeID:
		fmt.Fprintf(sb, "{%d,%x,", x.ServerIndex, x.NamespaceURI)
		gopNodeID(sb, x.NodeID, x.NamespaceURI != "")
		sb.WriteString("}")
		return
	case *gop.QualifiedName:
		fmt.Fprintf(sb, "{namespaceindex:%d name:%x. }", x.NamespaceIndex, x.Name)
		return
	case *gop.LocalizedText:
		fmt.Fprintf(sb, "{text:%x. locale:%x. }", x.Text, x.Locale)
		return
	case *gop.Variant:
		gopVariant(sb, x)
		return
	case *gop.DataValue:
		sb.WriteString("D(")
		gopVariant(sb, x.Value)
		fmt.Fprintf(sb, ",%d,t%d,%d,t%d,%d)", uint32(x.Status), gopTicks(x.SourceTimestamp), x.SourcePicoseconds, gopTicks(x.ServerTimestamp), x.ServerPicoseconds)
		return
	case *gop.DiagnosticInfo:
		gopDiag(sb, x)
		return
	case *gop.ExtensionObject:
		gopExt(sb, x)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		dumpFloat(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%x.", v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x.", v.Bytes())
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpGop(sb, v.Index(i))
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nilptr")
			return
		}
		dumpGop(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(sb, "%s:", strings.ToLower(v.Type().Field(i).Name))
			dumpGop(sb, v.Field(i))
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "?%s", v.Type())
	}
}

func gopDiag(sb *strings.Builder, d *gop.DiagnosticInfo) {
	sb.WriteString("G(")
	p := func(k string, m byte, x int32) {
		if d.EncodingMask&m != 0 {
			fmt.Fprintf(sb, "%s=%d ", k, x)
		}
	}
	p("sym", 1, d.SymbolicID)
	p("ns", 2, d.NamespaceURI)
	p("loc", 8, d.Locale)
	p("txt", 4, d.LocalizedText)
	if d.EncodingMask&16 != 0 {
		fmt.Fprintf(sb, "add=%x ", d.AdditionalInfo)
	}
	if d.EncodingMask&32 != 0 {
		fmt.Fprintf(sb, "st=%d ", uint32(d.InnerStatusCode))
	}
	if d.EncodingMask&64 != 0 {
		gopDiag(sb, d.InnerDiagnosticInfo)
	}
	sb.WriteString(")")
}

func gopExt(sb *strings.Builder, x *gop.ExtensionObject) {
	var id strings.Builder
	gopNodeID(&id, x.TypeID.NodeID, false)
	if id.String() == "null" {
		sb.WriteString("X()")
		return
	}
	fmt.Fprintf(sb, "X(i=%d ", x.TypeID.NodeID.IntID())
	if x.Value == nil {
		sb.WriteString("{}")
	} else {
		dumpGop(sb, reflect.ValueOf(x.Value))
	}
	sb.WriteString(")")
}

func gopVariant(sb *strings.Builder, m *gop.Variant) {
	if m == nil || m.Type() == gop.TypeIDNull {
		sb.WriteString("V()")
		return
	}
	n := byte(m.Type())
	if !m.Has(gop.VariantArrayValues) {
		var one strings.Builder
		dumpGop(&one, reflect.ValueOf(m.Value()))
		if n == 17 && one.String() == "null" {
			sb.WriteString("V()")
			return
		}
		fmt.Fprintf(sb, "V(%d %s)", n, one.String())
		return
	}
	if m.ArrayLength() <= 0 {
		r := 1
		if l := len(m.ArrayDimensions()); l > 0 {
			r = l
		}
		fmt.Fprintf(sb, "V(%d rank%d empty)", n, r)
		return
	}
	dims := m.ArrayDimensions()
	if len(dims) == 0 {
		dims = []int32{m.ArrayLength()}
	}
	fmt.Fprintf(sb, "V(%d %v ", n, dims)
	var walk func(x reflect.Value, d int)
	walk = func(x reflect.Value, d int) {
		if d == len(dims) {
			dumpGop(sb, x)
			sb.WriteString(" ")
			return
		}
		for i := 0; i < x.Len(); i++ {
			walk(x.Index(i), d+1)
		}
	}
	walk(reflect.ValueOf(m.Value()), 0)
	sb.WriteString(")")
}
