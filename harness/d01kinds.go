package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

// d01Kind is an element type; values stand for integers modulo m.
type d01Kind struct {
	name     string
	dataType ua.NodeID
	m        int64
	to       func([]int64) ua.Variant
	from     func(ua.Variant) ([]int64, bool)
	alien    ua.Variant // scalar of a type that never fits
}

func kindOf[T any](name string, dt ua.NodeID, m int64, to func(int64) T, from func(T) int64) d01Kind {
	k := d01Kind{name: name, dataType: dt, m: m}
	k.to = func(in []int64) ua.Variant {
		out := make([]T, len(in))
		for i, x := range in {
			out[i] = to(x % m)
		}
		return out
	}
	k.from = func(v ua.Variant) ([]int64, bool) {
		s, ok := v.([]T)
		if !ok {
			return nil, false
		}
		out := make([]int64, len(s))
		for i := range s {
			out[i] = from(s[i])
		}
		return out, true
	}
	return k
}

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return -1
	}
	return n
}

var d01Kinds = []d01Kind{
	kindOf("Int64", ua.DataTypeIDInt64, 1<<40, func(x int64) int64 { return x }, func(x int64) int64 { return x }),
	kindOf("Double", ua.DataTypeIDDouble, 1<<40, func(x int64) float64 { return float64(x) }, func(x float64) int64 { return int64(x) }),
	kindOf("String", ua.DataTypeIDString, 1<<40, func(x int64) string { return fmt.Sprint(x) }, atoi),
	kindOf("Int32", ua.DataTypeIDInt32, 1<<30, func(x int64) int32 { return int32(x) }, func(x int32) int64 { return int64(x) }),
	kindOf("Boolean", ua.DataTypeIDBoolean, 2, func(x int64) bool { return x == 1 }, func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}),
	kindOf("Float", ua.DataTypeIDFloat, 1<<20, func(x int64) float32 { return float32(x) }, func(x float32) int64 { return int64(x) }),
	kindOf("SByte", ua.DataTypeIDSByte, 120, func(x int64) int8 { return int8(x) }, func(x int8) int64 { return int64(x) }),
	kindOf("Int16", ua.DataTypeIDInt16, 30000, func(x int64) int16 { return int16(x) }, func(x int16) int64 { return int64(x) }),
	kindOf("DateTime", ua.DataTypeIDDateTime, 1<<30, func(x int64) time.Time { return time.Unix(1e9+x, 0).UTC() }, func(x time.Time) int64 {
		if x.IsZero() {
			return 0
		}
		return x.Unix() - 1e9
	}),
	kindOf("UInt32", ua.DataTypeIDUInt32, 1<<30, func(x int64) uint32 { return uint32(x) }, func(x uint32) int64 { return int64(x) }),
	kindOf("UInt16", ua.DataTypeIDUInt16, 60000, func(x int64) uint16 { return uint16(x) }, func(x uint16) int64 { return int64(x) }),
	kindOf("UInt64", ua.DataTypeIDUInt64, 1<<40, func(x int64) uint64 { return uint64(x) }, func(x uint64) int64 { return int64(x) }),
	kindOf("Guid", ua.DataTypeIDGUID, 250, func(x int64) uuid.UUID { return uuid.UUID{0: byte(x)} }, func(x uuid.UUID) int64 { return int64(x[0]) }),
	kindOf("ByteString", ua.DataTypeIDByteString, 1<<40, func(x int64) ua.ByteString { return ua.ByteString(fmt.Sprint(x)) }, func(x ua.ByteString) int64 { return atoi(string(x)) }),
	kindOf("LocalizedText", ua.DataTypeIDLocalizedText, 1<<40, func(x int64) ua.LocalizedText { return ua.NewLocalizedText(fmt.Sprint(x), "") }, func(x ua.LocalizedText) int64 { return atoi(x.Text) }),
	kindOf("QualifiedName", ua.DataTypeIDQualifiedName, 1<<40, func(x int64) ua.QualifiedName { return ua.NewQualifiedName(1, fmt.Sprint(x)) }, func(x ua.QualifiedName) int64 { return atoi(x.Name) }),
	kindOf("NodeId", ua.DataTypeIDNodeID, 1<<30, func(x int64) ua.NodeID { return ua.NewNodeIDNumeric(1, uint32(x)) }, func(x ua.NodeID) int64 {
		if n, ok := x.(ua.NodeIDNumeric); ok {
			return int64(n.ID)
		}
		return -1
	}),
	kindOf("StatusCode", ua.DataTypeIDStatusCode, 1<<30, func(x int64) ua.StatusCode { return ua.StatusCode(x) }, func(x ua.StatusCode) int64 { return int64(x) }),
	kindOf("Variant", ua.DataTypeIDBaseDataType, 1<<40, func(x int64) ua.Variant { return x }, func(x ua.Variant) int64 {
		if n, ok := x.(int64); ok {
			return n
		}
		return -1
	}),
}
