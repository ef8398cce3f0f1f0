package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

func init() {
	register("C03", &check{run: runC03, minEvals: 20000, minDistinct: 10000,
		rule: "distinct id values and texts; oracles: parse(format(x)) == x, injectivity of format over all generated values, an independent grammar for arbitrary text, namespace-table conversions against a reference"})
}

func guardStr(c *Ctx, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic:"+what, "%s panics: %v", what, r)
		}
	}()
	f()
}

var trickyText = []string{"", ";", "=", "ns=", "ns=2;", "i=5", "s=", ";;", "ns=1;i=5", "svr=1;", "nsu=x;", "%", "%3B", "%25", "%253B", "a;b", "a b", "\x00", "ü", "日本", "\xff\xfe", ":", "1:x", "0:", "/", "..", "\n", "\r\n", "+5", "-1", "_", "0x10", "g=", "b=", "http://x/;y", "urn:a%b", "http://opcfoundation.org/UA/", "A", "a", "ns=2;s=a", "\"", "'", "\\", "\t"}

func textOf(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return trickyText[r.Intn(len(trickyText))]
	case 1:
		return trickyText[r.Intn(len(trickyText))] + trickyText[r.Intn(len(trickyText))]
	case 2:
		b := make([]byte, r.Intn(12))
		r.Read(b)
		return string(b)
	case 3:
		n := r.Intn(10)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteByte(";=%:ns0123abi/"[r.Intn(14)])
		}
		return sb.String()
	default:
		return fmt.Sprintf("Demo.%d", r.Intn(1000))
	}
}

func u16Of(r *rand.Rand) uint16 {
	return []uint16{0, 0, 1, 2, 3, 9, 10, 255, 256, 257, 32767, 32768, 65534, 65535, uint16(r.Intn(65536))}[r.Intn(15)]
}

func u32Of(r *rand.Rand) uint32 {
	return []uint32{0, 1, 2, 85, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, r.Uint32()}[r.Intn(13)]
}

func nodeIDOf(r *rand.Rand) ua.NodeID {
	ns := u16Of(r)
	switch r.Intn(4) {
	case 0:
		return ua.NewNodeIDNumeric(ns, u32Of(r))
	case 1:
		return ua.NewNodeIDString(ns, textOf(r))
	case 2:
		var u uuid.UUID
		if r.Intn(5) > 0 {
			r.Read(u[:])
		}
		return ua.NewNodeIDGUID(ns, u)
	default:
		b := make([]byte, r.Intn(9))
		r.Read(b)
		return ua.NewNodeIDOpaque(ns, ua.ByteString(b))
	}
}

func isNullID(n ua.NodeID) bool {
	return n == nil || n == ua.NodeID(ua.NodeIDNumeric{})
}

func sameID(a, b ua.NodeID) bool { return a == b || isNullID(a) && isNullID(b) }

// refNodeID: what a text says. ok=false: malformed; dc=true: the notation of the identifier is lenient by design of the parsers underneath.
var (
	reNs = regexp.MustCompile(`^[0-9]+$`)
	reG  = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)
)

func refNodeID(s string) (id ua.NodeID, ok, dc bool) {
	ns := uint64(0)
	if strings.HasPrefix(s, "ns=") {
		i := strings.IndexByte(s, ';')
		if i < 0 || !reNs.MatchString(s[3:i]) {
			return nil, false, false
		}
		v, err := strconv.ParseUint(s[3:i], 10, 16)
		if err != nil {
			return nil, false, false
		}
		ns, s = v, s[i+1:]
	}
	if len(s) < 2 || s[1] != '=' {
		return nil, false, false
	}
	body := s[2:]
	switch s[0] {
	case 'i':
		if !reNs.MatchString(body) {
			return nil, false, false
		}
		v, err := strconv.ParseUint(body, 10, 32)
		if err != nil {
			return nil, false, false
		}
		return ua.NodeIDNumeric{NamespaceIndex: uint16(ns), ID: uint32(v)}, true, false
	case 's':
		return ua.NodeIDString{NamespaceIndex: uint16(ns), ID: body}, true, false
	case 'g':
		if !reG.MatchString(body) {
			_, err := uuid.Parse(body)
			return nil, false, err == nil
		}
		u := uuid.MustParse(body)
		return ua.NodeIDGUID{NamespaceIndex: uint16(ns), ID: u}, true, false
	case 'b':
		b, err := base64.StdEncoding.Strict().DecodeString(body)
		if err != nil || strings.ContainsAny(body, "\r\n") {
			_, err2 := base64.StdEncoding.DecodeString(body)
			return nil, false, err2 == nil
		}
		return ua.NodeIDOpaque{NamespaceIndex: uint16(ns), ID: ua.ByteString(b)}, true, false
	}
	return nil, false, false
}

func stringer(n any) string { return n.(fmt.Stringer).String() }

func runC03(c *Ctx) {
	r := c.Rng("ids")
	seen := map[string]ua.NodeID{}
	for k := 0; k < c.N(30000, 600000); k++ {
		id := nodeIDOf(r)
		guardStr(c, "NodeID", func() {
			s := stringer(id)
			c.Eval("id/" + s)
			if old, ok := seen[s]; ok && old != id {
				c.Violate("ambiguous", "%#v and %#v have the same text %q", old, id, s)
			}
			seen[s] = id
			if got := ua.ParseNodeID(s); !sameID(got, id) {
				c.Violate("roundtrip:nodeid", "%#v formats as %q which parses to %#v", id, s, got)
			}
			if mt, ok := id.(interface{ MarshalText() ([]byte, error) }); ok {
				if b, err := mt.MarshalText(); err != nil || string(b) != s {
					c.Violate("marshal", "MarshalText of %q gives %q %v", s, b, err)
				}
			}
			if want, ok, _ := refNodeID(s); !ok || !sameID(want, id) {
				c.Violate("form:nodeid", "%#v formats as %q, which the specified notation reads as %#v", id, s, want)
			}
		})
	}
	seenE := map[string]ua.ExpandedNodeID{}
	for k := 0; k < c.N(30000, 600000); k++ {
		e := ua.ExpandedNodeID{NodeID: nodeIDOf(r)}
		if r.Intn(2) == 0 {
			e.ServerIndex = u32Of(r)
		}
		if r.Intn(2) == 0 {
			e.NamespaceURI = textOf(r)
		}
		if isNullID(e.NodeID) {
			e.NodeID = nil
		}
		guardStr(c, "ExpandedNodeID", func() {
			s := e.String()
			c.Eval("x/" + s)
			if old, ok := seenE[s]; ok && old != e {
				c.Violate("ambiguous", "%#v and %#v have the same text %q", old, e, s)
			}
			seenE[s] = e
			if got := ua.ParseExpandedNodeID(s); got != e {
				c.Violate("roundtrip:expanded", "%#v formats as %q which parses to %#v", e, s, got)
			}
		})
	}
	seenQ := map[string]ua.QualifiedName{}
	for k := 0; k < c.N(20000, 200000); k++ {
		q := ua.QualifiedName{NamespaceIndex: u16Of(r), Name: textOf(r)}
		guardStr(c, "QualifiedName", func() {
			s := q.String()
			c.Eval("q/" + s)
			if old, ok := seenQ[s]; ok && old != q {
				c.Violate("ambiguous", "%#v and %#v have the same text %q", old, q, s)
			}
			seenQ[s] = q
			if got := ua.ParseQualifiedName(s); got != q {
				c.Violate("roundtrip:qname", "%#v formats as %q which parses to %#v", q, s, got)
			}
			// a text without a namespace prefix is the whole name in namespace 0
			t := textOf(r)
			if i := strings.IndexByte(t, ':'); i < 0 || !reNs.MatchString(t[:i]) {
				if got := ua.ParseQualifiedName(t); got != (ua.QualifiedName{Name: t}) {
					c.Violate("plain:qname", "%q parses to %#v", t, got)
				}
			}
			// browse paths of names without '/'
			var names []ua.QualifiedName
			var parts []string
			for i := 0; i < 1+r.Intn(4); i++ {
				n := ua.QualifiedName{NamespaceIndex: u16Of(r), Name: strings.ReplaceAll(textOf(r), "/", "_")}
				names = append(names, n)
				parts = append(parts, n.String())
			}
			got := ua.ParseBrowsePath(strings.Join(parts, "/"))
			if fmt.Sprint(got) != fmt.Sprint(names) || len(got) != len(names) {
				c.Violate("browsepath", "%q parses to %v", strings.Join(parts, "/"), got)
			}
		})
	}
	for _, s := range []string{"65536:x", "99999:x", "18446744073709551616:y", "-1:x", "+1:x", " 1:x", "1 :x", "0x1:a", ":", ":x", "1_0:x"} {
		got := ua.ParseQualifiedName(s)
		if got != (ua.QualifiedName{Name: s}) {
			c.Violate("plain:qname", "%q, which has no valid namespace index, parses to %#v", s, got)
		}
		c.Eval("qm/" + s)
	}
	// arbitrary text
	frag := []string{"ns=", "i=", "s=", "g=", "b=", "svr=", "nsu=", ";", "0", "1", "65535", "65536", "4294967295", "4294967296", "99999999999999999999", "-1", "+1", " ", "x", "=", "YWJj", "YQ==", "YQ=", "5ce9dbce-5d79-434c-9ac3-1cfba9a6e92c", "5ce9dbce5d79434c9ac31cfba9a6e92c", "{", "}", "NS=", "I=", "0x5", "1_0", "é", "urn:x", "%3B", "%25", "ns=2;", "ns=2;i=5"}
	for k := 0; k < c.N(60000, 1500000); k++ {
		var sb strings.Builder
		for i := 0; i < r.Intn(6); i++ {
			sb.WriteString(frag[r.Intn(len(frag))])
		}
		s := sb.String()
		guardStr(c, "parse", func() {
			c.Eval("t/" + s)
			got := ua.ParseNodeID(s)
			want, ok, dc := refNodeID(s)
			if !dc {
				if !ok && got != nil {
					c.Violate("malformed", "malformed text %q parses to %#v", s, got)
				}
				if ok && !sameID(got, want) {
					c.Violate("parse", "%q parses to %#v, expected %#v", s, got, want)
				}
			}
			x := ua.ParseExpandedNodeID(s)
			wx, okx, dcx := refExpanded(s)
			if !dcx {
				if !okx && x.NodeID != nil {
					c.Violate("malformed:expanded", "malformed text %q parses to %#v", s, x)
				}
				if okx && (x.ServerIndex != wx.ServerIndex || x.NamespaceURI != wx.NamespaceURI || !sameID(x.NodeID, wx.NodeID)) {
					c.Violate("parse:expanded", "%q parses to %#v, expected %#v", s, x, wx)
				}
			}
			ua.ParseQualifiedName(s)
			ua.ParseBrowsePath(s)
		})
	}
	// namespace tables
	for k := 0; k < c.N(20000, 300000); k++ {
		n := 1 + r.Intn(6)
		if r.Intn(20) == 0 {
			n = 256 + r.Intn(50)
		}
		tab := []string{"http://opcfoundation.org/UA/"}
		for i := 1; i < n; i++ {
			tab = append(tab, fmt.Sprintf("urn:%d:%s", i, textOf(r)))
		}
		id := nodeIDOf(r)
		ns := idNS(id)
		if int(ns) >= n && r.Intn(3) > 0 {
			id = withNS(id, uint16(r.Intn(n)))
			ns = idNS(id)
		}
		if isNullID(id) {
			continue
		}
		guardStr(c, "convert", func() {
			e := ua.ToExpandedNodeID(id, tab)
			c.Eval(fmt.Sprintf("conv/%d/%s", n, stringer(id)))
			if ns > 0 && int(ns) < n {
				if e.NamespaceURI != tab[ns] || e.ServerIndex != 0 || e.NodeID != withNS(id, 0) {
					c.Violate("convert", "ToExpandedNodeID(%s) with table %q gives %#v", stringer(id), tab, e)
				}
			} else if e.NodeID != id || e.NamespaceURI != "" {
				c.Violate("convert", "ToExpandedNodeID(%s) with %d namespaces gives %#v", stringer(id), n, e)
			}
			if back := ua.ToNodeID(e, tab); back != id {
				c.Violate("convert", "%s converts to %v and back to %#v with table %q", stringer(id), e, back, tab)
			}
			// another context with the same URIs in another order
			tab2 := append([]string{}, tab...)
			r.Shuffle(len(tab2)-1, func(i, j int) { tab2[i+1], tab2[j+1] = tab2[j+1], tab2[i+1] })
			if int(ns) < n {
				id2 := ua.ToNodeID(e, tab2)
				if id2 == nil || tab2[idNS(id2)] != tab[ns] || withNS(id2, 0) != withNS(id, 0) {
					c.Violate("convert", "%v converts to %#v with table %q", e, id2, tab2)
				}
			}
			if got := ua.ToNodeID(ua.ExpandedNodeID{NamespaceURI: "urn:absent", NodeID: id}, tab); got != nil {
				c.Violate("convert", "an id in an absent namespace converts to %#v", got)
			}
		})
	}
}

func refExpanded(s string) (x ua.ExpandedNodeID, ok, dc bool) {
	if strings.HasPrefix(s, "svr=") {
		i := strings.IndexByte(s, ';')
		if i < 0 || !reNs.MatchString(s[4:i]) {
			return x, false, false
		}
		v, err := strconv.ParseUint(s[4:i], 10, 32)
		if err != nil {
			return x, false, false
		}
		x.ServerIndex, s = uint32(v), s[i+1:]
	}
	if strings.HasPrefix(s, "nsu=") {
		i := strings.IndexByte(s, ';')
		if i < 0 {
			return x, false, false
		}
		u := s[4:i]
		var sb strings.Builder
		for j := 0; j < len(u); j++ {
			if u[j] == '%' && j+2 < len(u) && (strings.EqualFold(u[j:j+3], "%3B") || u[j:j+3] == "%25") {
				v, _ := strconv.ParseUint(u[j+1:j+3], 16, 8)
				sb.WriteByte(byte(v))
				j += 2
				continue
			}
			sb.WriteByte(u[j])
		}
		x.NamespaceURI, s = sb.String(), s[i+1:]
	}
	x.NodeID, ok, dc = refNodeID(s)
	return
}

func idNS(id ua.NodeID) uint16 {
	switch n := id.(type) {
	case ua.NodeIDNumeric:
		return n.NamespaceIndex
	case ua.NodeIDString:
		return n.NamespaceIndex
	case ua.NodeIDGUID:
		return n.NamespaceIndex
	case ua.NodeIDOpaque:
		return n.NamespaceIndex
	}
	return 0
}

func withNS(id ua.NodeID, ns uint16) ua.NodeID {
	switch n := id.(type) {
	case ua.NodeIDNumeric:
		n.NamespaceIndex = ns
		return n
	case ua.NodeIDString:
		n.NamespaceIndex = ns
		return n
	case ua.NodeIDGUID:
		n.NamespaceIndex = ns
		return n
	case ua.NodeIDOpaque:
		n.NamespaceIndex = ns
		return n
	}
	return id
}
