package main

import (
	"encoding/binary"
	"math"
	"math/rand"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

// refEnc is an independent encoder of the OPC UA binary format (part 6, 5.2). Where the specification
// allows several encodings of one value (node id forms, null or empty, minimal or full masks) it picks
// one at random.
type refEnc struct {
	b []byte
	r *rand.Rand
}

func (e *refEnc) u8(x byte)    { e.b = append(e.b, x) }
func (e *refEnc) u16(x uint16) { e.b = binary.LittleEndian.AppendUint16(e.b, x) }
func (e *refEnc) u32(x uint32) { e.b = binary.LittleEndian.AppendUint32(e.b, x) }
func (e *refEnc) u64(x uint64) { e.b = binary.LittleEndian.AppendUint64(e.b, x) }
func (e *refEnc) coin() bool   { return e.r.Intn(2) == 0 }
func (e *refEnc) null() {
	if e.coin() {
		e.u32(0xffffffff)
	} else {
		e.u32(0)
	}
}

func (e *refEnc) str(s string) {
	if s == "" {
		e.null()
		return
	}
	e.u32(uint32(len(s)))
	e.b = append(e.b, s...)
}

func (e *refEnc) time(t time.Time) { e.u64(uint64(ticksOf(t))) }

func (e *refEnc) guid(u uuid.UUID) {
	e.u32(binary.BigEndian.Uint32(u[0:]))
	e.u16(binary.BigEndian.Uint16(u[4:]))
	e.u16(binary.BigEndian.Uint16(u[6:]))
	e.b = append(e.b, u[8:]...)
}

func (e *refEnc) nodeID(n ua.NodeID, flags byte, dropNS bool) {
	ns := func(x uint16) uint16 {
		if dropNS {
			return 0
		}
		return x
	}
	switch x := n.(type) {
	case nil:
		e.u8(flags)
		e.u8(0)
	case ua.NodeIDNumeric:
		n := ns(x.NamespaceIndex)
		forms := []int{2}
		if n <= 255 && x.ID <= 65535 {
			forms = append(forms, 1)
		}
		if n == 0 && x.ID <= 255 {
			forms = append(forms, 0)
		}
		switch f := forms[e.r.Intn(len(forms))]; f {
		case 0:
			e.u8(flags)
			e.u8(byte(x.ID))
		case 1:
			e.u8(flags | 1)
			e.u8(byte(n))
			e.u16(uint16(x.ID))
		default:
			e.u8(flags | 2)
			e.u16(n)
			e.u32(x.ID)
		}
	case ua.NodeIDString:
		e.u8(flags | 3)
		e.u16(ns(x.NamespaceIndex))
		e.str(x.ID)
	case ua.NodeIDGUID:
		e.u8(flags | 4)
		e.u16(ns(x.NamespaceIndex))
		e.guid(x.ID)
	case ua.NodeIDOpaque:
		e.u8(flags | 5)
		e.u16(ns(x.NamespaceIndex))
		e.str(string(x.ID))
	}
}

func (e *refEnc) expanded(x ua.ExpandedNodeID) {
	var f byte
	if x.NamespaceURI != "" {
		f |= 0x80
	}
	if x.ServerIndex != 0 {
		f |= 0x40
	}
	e.nodeID(x.NodeID, f, x.NamespaceURI != "")
	if f&0x80 != 0 {
		e.str(x.NamespaceURI)
	}
	if f&0x40 != 0 {
		e.u32(x.ServerIndex)
	}
}

func (e *refEnc) diag(d ua.DiagnosticInfo) {
	var m byte
	for i, p := range []bool{d.SymbolicID != nil, d.NamespaceURI != nil, d.LocalizedText != nil, d.Locale != nil, d.AdditionalInfo != nil, d.InnerStatusCode != nil, d.InnerDiagnosticInfo != nil} {
		if p {
			m |= 1 << i
		}
	}
	e.u8(m)
	if d.SymbolicID != nil {
		e.u32(uint32(*d.SymbolicID))
	}
	if d.NamespaceURI != nil {
		e.u32(uint32(*d.NamespaceURI))
	}
	if d.Locale != nil {
		e.u32(uint32(*d.Locale))
	}
	if d.LocalizedText != nil {
		e.u32(uint32(*d.LocalizedText))
	}
	if d.AdditionalInfo != nil {
		e.str(*d.AdditionalInfo)
	}
	if d.InnerStatusCode != nil {
		e.u32(uint32(*d.InnerStatusCode))
	}
	if d.InnerDiagnosticInfo != nil {
		e.diag(*d.InnerDiagnosticInfo)
	}
}

func (e *refEnc) dataValue(d ua.DataValue) {
	var m byte
	opt := func(bit byte, present bool) {
		if present || (bit != 1 && bit != 4 && bit != 8 && e.r.Intn(4) == 0) {
			m |= bit
		}
	}
	opt(1, d.Value != nil)
	opt(2, d.StatusCode != 0)
	opt(4, !d.SourceTimestamp.IsZero())
	opt(8, !d.ServerTimestamp.IsZero())
	opt(16, d.SourcePicoseconds != 0)
	opt(32, d.ServerPicoseconds != 0)
	e.u8(m)
	if m&1 != 0 {
		e.variant(reflect.ValueOf(d.Value))
	}
	if m&2 != 0 {
		e.u32(uint32(d.StatusCode))
	}
	if m&4 != 0 {
		e.time(d.SourceTimestamp)
	}
	if m&16 != 0 {
		e.u16(d.SourcePicoseconds)
	}
	if m&8 != 0 {
		e.time(d.ServerTimestamp)
	}
	if m&32 != 0 {
		e.u16(d.ServerPicoseconds)
	}
}

func (e *refEnc) ext(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	id, _ := ua.FindBinaryEncodingIDForType(v.Type())
	e.nodeID(id.NodeID, 0, false)
	e.u8(1)
	at := len(e.b)
	e.u32(0)
	e.value(v)
	binary.LittleEndian.PutUint32(e.b[at:], uint32(len(e.b)-at-4))
}

func (e *refEnc) variant(v reflect.Value) {
	t := v.Type()
	rank := 0
	for t.Kind() == reflect.Slice && builtinNumber(t) == 0 {
		t = t.Elem()
		rank++
	}
	n := builtinNumber(t)
	if n == 0 {
		if t.Implements(tNodeID) {
			n = 17
		} else {
			n = 22
		}
	}
	if rank == 0 {
		e.u8(n)
		switch n {
		case 17:
			e.nodeID(v.Interface().(ua.NodeID), 0, false)
		case 22:
			e.ext(v)
		default:
			e.value(v)
		}
		return
	}
	m := n | 0x80
	if rank > 1 {
		m |= 0x40
	}
	e.u8(m)
	var dims []int
	total := 1
	x := v
	for i := 0; i < rank; i++ {
		l := 0
		if x.IsValid() && x.Kind() == reflect.Slice {
			l = x.Len()
		}
		dims = append(dims, l)
		total *= l
		if l > 0 {
			x = x.Index(0)
		} else {
			x = reflect.Value{}
		}
	}
	e.u32(uint32(total))
	var walk func(x reflect.Value, d int)
	walk = func(x reflect.Value, d int) {
		if d == rank {
			e.value(x)
			return
		}
		for i := 0; i < x.Len(); i++ {
			walk(x.Index(i), d+1)
		}
	}
	walk(v, 0)
	if rank > 1 {
		e.u32(uint32(rank))
		for _, d := range dims {
			e.u32(uint32(d))
		}
	}
}

func (e *refEnc) value(v reflect.Value) {
	switch v.Type() {
	case tTime:
		e.time(v.Interface().(time.Time))
		return
	case tUUID:
		e.guid(v.Interface().(uuid.UUID))
		return
	case tNodeID:
		n, _ := v.Interface().(ua.NodeID)
		e.nodeID(n, 0, false)
		return
	case tExpanded:
		e.expanded(v.Interface().(ua.ExpandedNodeID))
		return
	case tVariant:
		if v.IsNil() {
			e.u8(0)
		} else {
			e.variant(v.Elem())
		}
		return
	case tExtObj:
		if v.IsNil() {
			e.nodeID(nil, 0, false)
			e.u8(0)
		} else {
			e.ext(v.Elem())
		}
		return
	case tDataValue:
		e.dataValue(v.Interface().(ua.DataValue))
		return
	case tDiag:
		e.diag(v.Interface().(ua.DiagnosticInfo))
		return
	case tQName:
		q := v.Interface().(ua.QualifiedName)
		e.u16(q.NamespaceIndex)
		e.str(q.Name)
		return
	case tLText:
		l := v.Interface().(ua.LocalizedText)
		var m byte
		if l.Locale != "" || e.coin() {
			m |= 1
		}
		if l.Text != "" || e.coin() {
			m |= 2
		}
		e.u8(m)
		if m&1 != 0 {
			e.str(l.Locale)
		}
		if m&2 != 0 {
			e.str(l.Text)
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			e.u8(1)
		} else {
			e.u8(0)
		}
	case reflect.Int8:
		e.u8(byte(v.Int()))
	case reflect.Uint8:
		e.u8(byte(v.Uint()))
	case reflect.Int16:
		e.u16(uint16(v.Int()))
	case reflect.Uint16:
		e.u16(uint16(v.Uint()))
	case reflect.Int32:
		e.u32(uint32(v.Int()))
	case reflect.Uint32:
		e.u32(uint32(v.Uint()))
	case reflect.Int64:
		e.u64(uint64(v.Int()))
	case reflect.Uint64:
		e.u64(v.Uint())
	case reflect.Float32:
		e.u32(math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		e.u64(math.Float64bits(v.Float()))
	case reflect.String:
		e.str(v.String())
	case reflect.Slice:
		if v.Len() == 0 {
			e.null()
			return
		}
		e.u32(uint32(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			e.b = append(e.b, v.Bytes()...)
			return
		}
		for i := 0; i < v.Len(); i++ {
			e.value(v.Index(i))
		}
	case reflect.Ptr:
		e.value(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			e.value(v.Field(i))
		}
	default:
		panic("refenc: " + v.Type().String())
	}
}
