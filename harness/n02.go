package main

import (
	"bytes"
	"encoding/base64"
	"encoding/xml"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

func init() {
	register("N02", &check{run: runN02, minEvals: 1200, minDistinct: 800,
		rule: "node sets are generated from an abstract model (nodes named by namespace URI) and rendered with a random namespace table, aliases and spellings; after each load the whole address space reachable through references is compared with old content + model, attributes, values and both directions of every reference, and a client reads and browses the new nodes; ill-formed and invalid documents must be refused and leave the address space as it was",
		assumptions: []string{"values are those of the built-in types, Duration, the abstract number types, BaseDataType, Range, EUInformation, enumerations, and lists of the built-in types, Argument, EnumValueType and variants (without NodeId, ExpandedNodeId and number-type lists); value ranks other than scalar and one dimension carry no value",
			"type-definition and modelling-rule references are one-way", "documents that use namespace indexes beyond their own table are not generated"}})
}

const n02UA = "http://opcfoundation.org/UA/"

// xid is a NodeID named by its namespace URI.
type xid struct {
	uri  string
	kind byte // i s g b
	num  uint32
	str  string
}

func uaID(n uint32) xid { return xid{n02UA, 'i', n, ""} }

func (x xid) at(ns uint16) ua.NodeID {
	switch x.kind {
	case 'i':
		return ua.NewNodeIDNumeric(ns, x.num)
	case 's':
		return ua.NewNodeIDString(ns, x.str)
	case 'g':
		return ua.NewNodeIDGUID(ns, uuid.MustParse(x.str))
	}
	return ua.NewNodeIDOpaque(ns, ua.ByteString(x.str))
}

func (x xid) text() string {
	switch x.kind {
	case 'i':
		return "i=" + strconv.Itoa(int(x.num))
	case 'b':
		return "b=" + base64.StdEncoding.EncodeToString([]byte(x.str))
	}
	return string(x.kind) + "=" + x.str
}

type xref struct {
	typ     xid
	inverse bool
	target  xid
}

type xname struct{ uri, name string }

// xval renders a value for a document and tells what it stands for on the server.
type xval struct {
	kind string
	xml  func(d *n02Doc) string
	want func(w *n02World) ua.Variant
}

type xnode struct {
	class           ua.NodeClass
	id              xid
	bname           xname
	disp, desc, inv ua.LocalizedText
	abstract, sym   bool
	notifier        byte
	noLoops         bool
	exec            bool
	dt              *xid
	rank            int32
	dims            []uint32
	val             *xval
	access          byte
	msi             float64
	historizing     bool
	refs            []xref
}

// n02Doc is one rendering of a set of nodes.
type n02Doc struct {
	r       *rand.Rand
	table   []string // document index i+1
	idx     map[string]int
	aliases map[string]string // alias -> rendered id
	byText  map[string]string
	pfx     string
}

func (d *n02Doc) ns(uri string) int {
	if i, ok := d.idx[uri]; ok && (uri != n02UA || d.r.Intn(2) == 0) {
		return i
	}
	return 0 // only the standard namespace is implied
}

func (d *n02Doc) id(x xid) string {
	n := d.ns(x.uri)
	if n == 0 && d.r.Intn(6) > 0 {
		return x.text()
	}
	return fmt.Sprintf("ns=%d;%s", n, x.text())
}

// ref renders an id where an alias may be used.
func (d *n02Doc) ref(x xid) string {
	s := d.id(x)
	if a, ok := d.byText[s]; ok && d.r.Intn(2) == 0 {
		return a
	}
	if d.r.Intn(3) == 0 {
		a := fmt.Sprintf("Alias%d_&<é", len(d.aliases))
		if d.r.Intn(2) == 0 {
			a = fmt.Sprintf("A%d", len(d.aliases))
		}
		d.aliases[a] = s
		d.byText[s] = a
		return a
	}
	return s
}

func (d *n02Doc) qname(q xname) string {
	n := d.ns(q.uri)
	if n == 0 && d.r.Intn(4) > 0 && !strings.Contains(q.name, ":") {
		return q.name
	}
	return fmt.Sprintf("%d:%s", n, q.name)
}

// text escapes character data in one of the ways XML offers.
func (d *n02Doc) text(s string) string {
	switch d.r.Intn(5) {
	case 0:
		if !strings.Contains(s, "]]>") && s != "" {
			return "<![CDATA[" + s + "]]>"
		}
	case 1:
		var b strings.Builder
		for _, c := range s {
			if d.r.Intn(2) == 0 || strings.ContainsRune("<>&", c) {
				fmt.Fprintf(&b, "&#%d;", c)
			} else {
				b.WriteRune(c)
			}
		}
		return b.String()
	}
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (d *n02Doc) attr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}

func (d *n02Doc) space() string {
	return []string{"", "", "\n", " ", "\n    ", "<!-- c -->"}[d.r.Intn(6)]
}

// el is an element of the types namespace.
func (d *n02Doc) el(name, inner string) string {
	return "<" + d.pfx + name + ">" + inner + "</" + d.pfx + name + ">"
}

func (d *n02Doc) bool(b bool) string {
	if b {
		return []string{"true", "1"}[d.r.Intn(2)]
	}
	return []string{"false", "0"}[d.r.Intn(2)]
}

func (d *n02Doc) lt(t ua.LocalizedText) string {
	s := d.space()
	if t.Locale != "" || d.r.Intn(2) == 0 {
		s += d.el("Locale", d.text(t.Locale))
	}
	return s + d.space() + d.el("Text", d.text(t.Text)) + d.space()
}

type n02World struct {
	w    *World
	nm   *server.NamespaceManager
	uris []string
}

func (w *n02World) ns(uri string) uint16 {
	for i, u := range w.uris {
		if u == uri {
			return uint16(i)
		}
	}
	return 0xffff
}

func (w *n02World) id(x xid) ua.NodeID { return x.at(w.ns(x.uri)) }

// n02State is the content of the address space: the attributes and the references by node.
type n02State map[ua.NodeID]*n02Node

type n02Node struct {
	attrs map[string]any
	edges map[gEdge]int
}

func n02Observe(n server.Node, uris []string, withValue bool) *n02Node {
	a := map[string]any{"class": n.NodeClass(), "bname": n.BrowseName(), "disp": n.DisplayName(), "desc": n.Description()}
	switch x := n.(type) {
	case *server.ObjectTypeNode:
		a["abstract"] = x.IsAbstract()
	case *server.VariableTypeNode:
		a["abstract"], a["dt"], a["rank"], a["dims"] = x.IsAbstract(), x.DataType(), x.ValueRank(), x.ArrayDimensions()
		if withValue {
			a["value"] = x.Value().Value
		}
	case *server.DataTypeNode:
		a["abstract"] = x.IsAbstract()
	case *server.ReferenceTypeNode:
		a["abstract"], a["sym"], a["inv"] = x.IsAbstract(), x.Symmetric(), x.InverseName()
	case *server.ObjectNode:
		a["notifier"] = x.EventNotifier()
	case *server.VariableNode:
		a["dt"], a["rank"], a["dims"] = x.DataType(), x.ValueRank(), x.ArrayDimensions()
		a["access"], a["msi"], a["hist"] = x.AccessLevel(), x.MinimumSamplingInterval(), x.Historizing()
		if withValue {
			a["value"] = x.Value().Value
			if x.Value().StatusCode != ua.Good {
				a["status"] = x.Value().StatusCode
			}
		}
	case *server.MethodNode:
		a["exec"] = x.Executable()
	case *server.ViewNode:
		a["noLoops"], a["notifier"] = x.ContainsNoLoops(), x.EventNotifier()
	}
	es := map[gEdge]int{}
	for _, r := range n.References() {
		es[gEdge{r.ReferenceTypeID, r.IsInverse, ua.ToNodeID(r.TargetID, uris)}]++
	}
	return &n02Node{a, es}
}

// n02Snapshot walks the address space from the root folder and the given nodes.
func (w *n02World) snapshot(more []ua.NodeID) n02State {
	w.uris = w.nm.NamespaceUris()
	st := n02State{}
	todo := append([]ua.NodeID{ua.ObjectIDRootFolder}, more...)
	for len(todo) > 0 {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if st[id] != nil || id == nil {
			continue
		}
		n, ok := w.nm.FindNode(id)
		if !ok {
			continue
		}
		o := n02Observe(n, w.uris, nodeNS(id) > 0)
		st[id] = o
		if n.NodeID() != id {
			o.attrs["id"] = n.NodeID()
		}
		for e := range o.edges {
			todo = append(todo, e.target)
		}
	}
	return st
}

func (w *n02World) expect(n *xnode) *n02Node {
	a := map[string]any{"class": n.class, "bname": ua.NewQualifiedName(w.ns(n.bname.uri), n.bname.name), "disp": n.disp, "desc": n.desc}
	val := func() ua.Variant {
		if n.val == nil {
			return nil
		}
		return n.val.want(w)
	}
	dt := func() ua.NodeID {
		if n.dt == nil {
			return ua.DataTypeIDBaseDataType
		}
		return w.id(*n.dt)
	}
	switch n.class {
	case ua.NodeClassObjectType, ua.NodeClassDataType:
		a["abstract"] = n.abstract
	case ua.NodeClassVariableType:
		a["abstract"], a["dt"], a["rank"], a["dims"], a["value"] = n.abstract, dt(), n.rank, n.dims, val()
	case ua.NodeClassReferenceType:
		a["abstract"], a["sym"], a["inv"] = n.abstract, n.sym, n.inv
	case ua.NodeClassObject:
		a["notifier"] = n.notifier
	case ua.NodeClassVariable:
		a["dt"], a["rank"], a["dims"], a["value"] = dt(), n.rank, n.dims, val()
		a["access"], a["msi"], a["hist"] = n.access, n.msi, n.historizing
	case ua.NodeClassMethod:
		a["exec"] = n.exec
	case ua.NodeClassView:
		a["noLoops"], a["notifier"] = n.noLoops, n.notifier
	}
	es := map[gEdge]int{}
	for _, r := range n.refs {
		es[gEdge{w.id(r.typ), r.inverse, w.id(r.target)}] = 1
	}
	return &n02Node{a, es}
}

// link adds the other direction of every reference whose target exists.
func (st n02State) link() {
	for id, n := range st {
		for e := range n.edges {
			if oneWay(e.rt) {
				continue
			}
			if t := st[e.target]; t != nil {
				b := gEdge{e.rt, !e.inverse, id}
				if t.edges[b] == 0 {
					t.edges[b] = 1
				}
			}
		}
	}
}

func n02Same(a, b any) bool {
	if x, ok := a.([]uint32); ok {
		y, ok := b.([]uint32)
		if len(x) == 0 && len(y) == 0 && ok {
			return true
		}
	}
	return eqVal(a, b)
}

// n02Compare reports how the address space differs from the expected one.
func n02Compare(c *Ctx, what string, want, got n02State, doc func() string) bool {
	ok := true
	bad := func(key, f string, a ...any) {
		if ok {
			c.Sample("document of a violation", doc())
			os.WriteFile(filepath.Join(c.Dir, "n02.xml"), []byte(doc()), 0o644)
		}
		ok = false
		c.Violate(key, what+": "+f, a...)
	}
	for id, w := range want {
		g := got[id]
		if g == nil {
			bad("missing", "node %v is missing", id)
			continue
		}
		for k, v := range w.attrs {
			if !n02Same(v, g.attrs[k]) {
				bad("attr:"+k, "node %v (%v): %s is %T %+v, want %T %+v", id, w.attrs["class"], k, g.attrs[k], g.attrs[k], v, v)
			}
		}
		for k, v := range g.attrs {
			if _, ok := w.attrs[k]; !ok {
				bad("attr:"+k, "node %v (%v): unexpected %s %v", id, w.attrs["class"], k, v)
			}
		}
		for e, n := range w.edges {
			if g.edges[e] != n {
				bad("reference", "node %v: reference %v is there %d times, want %d", id, e, g.edges[e], n)
			}
		}
		for e := range g.edges {
			if w.edges[e] == 0 {
				bad("reference", "node %v: unexpected reference %v", id, e)
			}
		}
	}
	for id := range got {
		if want[id] == nil {
			bad("extra", "unexpected node %v", id)
		}
	}
	return ok
}

func (st n02State) clone() n02State {
	o := n02State{}
	for id, n := range st {
		es := map[gEdge]int{}
		for e, k := range n.edges {
			es[e] = k
		}
		o[id] = &n02Node{n.attrs, es}
	}
	return o
}

type n02Gen struct {
	r     *rand.Rand
	uris  []string // namespaces that nodes may have
	all   []*xnode
	enums []xid
	seq   int
	own   string
}

var n02Texts = []string{"plain", "a & b", "<tag>", "x > y && \"q\" 'z'", "grüße 世界 \U0001F600", "tab\there", "line\nbreak", "semi;colon=:1", "0", "]]", "{}", "ns=1;i=5", "&amp;"}

func (g *n02Gen) str() string { return n02Texts[g.r.Intn(len(n02Texts))] + strconv.Itoa(g.r.Intn(50)) }

func (g *n02Gen) ltext() ua.LocalizedText {
	return ua.LocalizedText{Text: g.str(), Locale: []string{"", "en", "de-DE"}[g.r.Intn(3)]}
}

func (g *n02Gen) newID() xid {
	g.seq++
	x := xid{uri: g.uris[g.r.Intn(len(g.uris))]}
	switch g.r.Intn(4) {
	case 0:
		x.kind, x.num = 'i', uint32(7000+g.seq)
		if g.r.Intn(8) == 0 {
			x.num = math.MaxUint32 - uint32(g.seq)
		}
	case 1:
		x.kind, x.str = 's', fmt.Sprintf("%s%d", n02Texts[g.r.Intn(5)], g.seq)
	case 2:
		x.kind, x.str = 'g', uuid.NewSHA1(uuid.NameSpaceOID, []byte(fmt.Sprint(g.own, g.seq))).String()
	default:
		x.kind, x.str = 'b', fmt.Sprintf("\x00\xff%d%s", g.seq, n02Texts[g.r.Intn(5)])
	}
	return x
}

func constVal(kind string, v ua.Variant, render func(d *n02Doc) string) *xval {
	return &xval{kind, render, func(*n02World) ua.Variant { return v }}
}

// scalar makes a value of a built-in type: the name of its element, its content and its meaning.
func (g *n02Gen) scalar(name string) (func(d *n02Doc) string, func(w *n02World) ua.Variant) {
	r := g.r
	c := func(v ua.Variant, s string) (func(d *n02Doc) string, func(w *n02World) ua.Variant) {
		return func(d *n02Doc) string {
			if name == "String" {
				return d.text(s)
			}
			return s
		}, func(*n02World) ua.Variant { return v }
	}
	i := func(bits int) int64 {
		switch r.Intn(4) {
		case 0:
			return -1 << (bits - 1)
		case 1:
			return 1<<(bits-1) - 1
		}
		return int64(r.Uint64()) >> (64 - bits)
	}
	u := func(bits int) uint64 {
		if r.Intn(3) == 0 {
			return math.MaxUint64 >> (64 - bits)
		}
		return r.Uint64() >> (64 - bits)
	}
	switch name {
	case "Boolean":
		b := r.Intn(2) == 0
		return func(d *n02Doc) string { return d.bool(b) }, func(*n02World) ua.Variant { return b }
	case "SByte":
		v := i(8)
		return c(int8(v), fmt.Sprint(v))
	case "Int16":
		v := i(16)
		return c(int16(v), fmt.Sprint(v))
	case "Int32":
		v := i(32)
		return c(int32(v), fmt.Sprint(v))
	case "Int64":
		v := i(64)
		return c(v, fmt.Sprint(v))
	case "Byte":
		v := u(8)
		return c(byte(v), fmt.Sprint(v))
	case "UInt16":
		v := u(16)
		return c(uint16(v), fmt.Sprint(v))
	case "UInt32":
		v := u(32)
		return c(uint32(v), fmt.Sprint(v))
	case "UInt64":
		v := u(64)
		return c(v, fmt.Sprint(v))
	case "Float":
		v := []float32{0, 1.5, -2.25e10, math.MaxFloat32, float32(math.Inf(1)), float32(r.NormFloat64())}[r.Intn(6)]
		return c(v, n02Float(float64(v), 32))
	case "Double":
		v := []float64{0, 0.1, -1e300, math.SmallestNonzeroFloat64, math.Inf(-1), r.NormFloat64()}[r.Intn(6)]
		return c(v, n02Float(v, 64))
	case "String":
		s := g.str()
		if r.Intn(3) == 0 {
			s = "  " + s + " "
		}
		if r.Intn(6) == 0 {
			s = ""
		}
		return c(s, s)
	case "DateTime":
		t := time.Date(1970+r.Intn(100), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(10000000)*100, time.UTC)
		s := t.Format("2006-01-02T15:04:05.9999999Z")
		if r.Intn(3) == 0 {
			s = t.In(time.FixedZone("", 5400)).Format("2006-01-02T15:04:05.9999999-07:00")
		}
		return c(t, s)
	case "Guid":
		v := uuid.NewSHA1(uuid.NameSpaceOID, []byte(fmt.Sprint(r.Int63())))
		return func(d *n02Doc) string { return d.space() + d.el("String", v.String()) + d.space() }, func(*n02World) ua.Variant { return v }
	case "ByteString":
		b := make([]byte, r.Intn(40))
		r.Read(b)
		s := base64.StdEncoding.EncodeToString(b)
		if r.Intn(3) == 0 && len(s) > 8 {
			s = "\n  " + s[:8] + "\n  " + s[8:] + "\n"
		}
		return c(ua.ByteString(b), s)
	case "XmlElement":
		s := fmt.Sprintf(`<foo a="%d">bar<b/>%s</foo>`, r.Intn(9), []string{"", "x &amp; y", "&lt;"}[r.Intn(3)])
		return c(ua.XMLElement(s), s)
	case "LocalizedText":
		t := g.ltext()
		return func(d *n02Doc) string { return d.lt(t) }, func(*n02World) ua.Variant { return t }
	case "QualifiedName":
		uri, s := g.anyURI(), g.str()
		return func(d *n02Doc) string {
				n := d.ns(uri)
				if n == 0 && d.r.Intn(2) == 0 {
					return d.el("Name", d.text(s))
				}
				return d.el("NamespaceIndex", strconv.Itoa(n)) + d.space() + d.el("Name", d.text(s))
			}, func(w *n02World) ua.Variant {
				return ua.QualifiedName{NamespaceIndex: w.ns(uri), Name: s}
			}
	case "NodeId":
		x := g.newID()
		return func(d *n02Doc) string { return d.space() + d.el("Identifier", d.text(d.id(x))) }, func(w *n02World) ua.Variant { return w.id(x) }
	case "ExpandedNodeId":
		x := g.newID()
		if r.Intn(3) == 0 {
			uri := "urn:some:other"
			return func(d *n02Doc) string { return d.el("Identifier", d.text("svr=2;nsu="+uri+";"+x.text())) }, func(w *n02World) ua.Variant {
				return ua.ExpandedNodeID{ServerIndex: 2, NamespaceURI: uri, NodeID: x.at(0)}
			}
		}
		return func(d *n02Doc) string { return d.el("Identifier", d.text(d.id(x))) }, func(w *n02World) ua.Variant { return ua.NewExpandedNodeID(w.id(x)) }
	}
	panic(name)
}

func n02Float(v float64, bits int) string {
	if math.IsInf(v, 0) {
		return map[bool]string{true: "INF", false: "-INF"}[v > 0]
	}
	return strconv.FormatFloat(v, 'g', -1, bits)
}

func (g *n02Gen) anyURI() string {
	if g.r.Intn(4) == 0 {
		return n02UA
	}
	return g.uris[g.r.Intn(len(g.uris))]
}

var n02Builtin = map[string]uint32{"Boolean": 1, "SByte": 2, "Byte": 3, "Int16": 4, "UInt16": 5, "Int32": 6, "UInt32": 7, "Int64": 8, "UInt64": 9, "Float": 10, "Double": 11, "String": 12, "DateTime": 13, "Guid": 14, "ByteString": 15, "XmlElement": 16, "NodeId": 17, "ExpandedNodeId": 18, "QualifiedName": 20, "LocalizedText": 21}

var n02Names = []string{"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "LocalizedText", "QualifiedName", "NodeId", "ExpandedNodeId"}

func n02Slice(vs []ua.Variant, of ua.Variant) ua.Variant {
	s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(of)), 0, len(vs))
	for _, v := range vs {
		s = reflect.Append(s, reflect.ValueOf(v))
	}
	return s.Interface()
}

// value picks a data type with a value.
func (g *n02Gen) value() (dt xid, rank int32, v *xval) {
	r := g.r
	one := func(kind, el string) *xval {
		render, want := g.scalar(el)
		return &xval{kind, func(d *n02Doc) string { return d.el(el, render(d)) }, want}
	}
	ext := func(d *n02Doc, id uint32, name, body string) string {
		return d.el("ExtensionObject", d.el("TypeId", d.el("Identifier", "i="+strconv.Itoa(int(id))))+d.space()+d.el("Body", d.el(name, body)))
	}
	switch k := r.Intn(20); {
	case k < 6:
		n := n02Names[r.Intn(len(n02Names))]
		return uaID(n02Builtin[n]), -1, one(n, n)
	case k < 12: // list of a built-in type
		n := n02Names[r.Intn(len(n02Names)-2)]
		m := 1 + r.Intn(4)
		var rs []func(*n02Doc) string
		var ws []func(*n02World) ua.Variant
		for j := 0; j < m; j++ {
			a, b := g.scalar(n)
			rs, ws = append(rs, a), append(ws, b)
		}
		return uaID(n02Builtin[n]), 1, &xval{"[]" + n, func(d *n02Doc) string {
			s := d.space()
			for _, f := range rs {
				s += d.el(n, f(d)) + d.space()
			}
			return d.el("ListOf"+n, s)
		}, func(w *n02World) ua.Variant {
			var vs []ua.Variant
			for _, f := range ws {
				vs = append(vs, f(w))
			}
			return n02Slice(vs, vs[0])
		}}
	case k < 13:
		n := []string{"SByte", "Int16", "Int32", "Int64"}[r.Intn(4)]
		return uaID(27), -1, one("Integer:"+n, n)
	case k < 14:
		n := []string{"Byte", "UInt16", "UInt32", "UInt64"}[r.Intn(4)]
		return uaID(28), -1, one("UInteger:"+n, n)
	case k < 15:
		n := n02Names[1:11][r.Intn(10)]
		return uaID(26), -1, one("Number:"+n, n)
	case k < 16:
		if r.Intn(2) == 0 {
			return uaID(290), -1, one("Duration", "Double")
		}
		n := n02Names[r.Intn(len(n02Names))]
		return uaID(24), -1, one("BaseDataType:"+n, n)
	case k < 17: // list of variants
		m := 1 + r.Intn(4)
		var rs []func(*n02Doc) string
		var ws []func(*n02World) ua.Variant
		kind := "[]Variant"
		for j := 0; j < m; j++ {
			n := n02Names[r.Intn(len(n02Names))]
			a, b := g.scalar(n)
			rs, ws = append(rs, func(d *n02Doc) string { return d.el(n, a(d)) }), append(ws, b)
			kind += ":" + n
		}
		return uaID(24), 1, &xval{kind, func(d *n02Doc) string {
			s := d.space()
			for _, f := range rs {
				s += f(d) + d.space()
			}
			return d.el("ListOfVariant", s)
		}, func(w *n02World) ua.Variant {
			vs := make([]ua.Variant, 0)
			for _, f := range ws {
				vs = append(vs, f(w))
			}
			return vs
		}}
	case k < 18: // enumerations
		x := uaID(307)
		if len(g.enums) > 0 && r.Intn(3) > 0 {
			x = g.enums[r.Intn(len(g.enums))]
		}
		return x, -1, one("enumeration", "Int32")
	case k < 19:
		if r.Intn(2) == 0 {
			lo, hi := r.NormFloat64(), r.NormFloat64()*100
			return uaID(884), -1, constVal("Range", ua.Range{Low: lo, High: hi}, func(d *n02Doc) string {
				return ext(d, 885, "Range", d.el("Low", n02Float(lo, 64))+d.space()+d.el("High", n02Float(hi, 64)))
			})
		}
		e := ua.EUInformation{NamespaceURI: "http://u/" + g.str(), UnitID: int32(r.Int31()), DisplayName: g.ltext(), Description: g.ltext()}
		return uaID(887), -1, constVal("EUInformation", e, func(d *n02Doc) string {
			return ext(d, 888, "EUInformation", d.el("NamespaceUri", d.text(e.NamespaceURI))+d.el("UnitId", fmt.Sprint(e.UnitID))+d.el("DisplayName", d.lt(e.DisplayName))+d.space()+d.el("Description", d.lt(e.Description)))
		})
	}
	m := 1 + r.Intn(3)
	if r.Intn(2) == 0 {
		var es []ua.ExtensionObject
		for j := 0; j < m; j++ {
			es = append(es, ua.EnumValueType{Value: int64(r.Uint64()), DisplayName: g.ltext(), Description: g.ltext()})
		}
		return uaID(7594), 1, constVal("[]EnumValueType", es, func(d *n02Doc) string {
			s := ""
			for _, e := range es {
				e := e.(ua.EnumValueType)
				s += ext(d, 7616, "EnumValueType", d.el("Value", fmt.Sprint(e.Value))+d.el("DisplayName", d.lt(e.DisplayName))+d.el("Description", d.lt(e.Description))) + d.space()
			}
			return d.el("ListOfExtensionObject", s)
		})
	}
	type arg struct {
		name string
		dt   xid
		rank int32
		desc ua.LocalizedText
	}
	var as []arg
	for j := 0; j < m; j++ {
		a := arg{g.str(), uaID(uint32(1 + r.Intn(15))), int32(r.Intn(3) - 1), g.ltext()}
		if len(g.enums) > 0 && r.Intn(2) == 0 {
			a.dt = g.enums[r.Intn(len(g.enums))]
		}
		as = append(as, a)
	}
	dims := func(rank int32) (string, []uint32) {
		switch {
		case rank == 1:
			return "0", []uint32{0}
		}
		return "", []uint32{}
	}
	return uaID(296), 1, &xval{"[]Argument", func(d *n02Doc) string {
		s := ""
		for _, a := range as {
			ds, _ := dims(a.rank)
			s += ext(d, 297, "Argument", d.el("Name", d.text(a.name))+d.space()+d.el("DataType", d.el("Identifier", d.text(d.id(a.dt))))+d.el("ValueRank", fmt.Sprint(a.rank))+d.el("ArrayDimensions", ds)+d.el("Description", d.lt(a.desc))) + d.space()
		}
		return d.el("ListOfExtensionObject", s)
	}, func(w *n02World) ua.Variant {
		var es []ua.ExtensionObject
		for _, a := range as {
			_, ds := dims(a.rank)
			es = append(es, ua.Argument{Name: a.name, DataType: w.id(a.dt), ValueRank: a.rank, ArrayDimensions: ds, Description: a.desc})
		}
		return es
	}}
}

var n02Classes = []ua.NodeClass{ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassObjectType, ua.NodeClassVariableType, ua.NodeClassReferenceType, ua.NodeClassDataType, ua.NodeClassView}

var n02RefTypes = []uint32{35, 47, 46, 49, 45, 36, 48, 41, 40, 37}

// nodes makes a group of nodes; they refer to each other, to earlier nodes, to standard nodes and to nodes to come.
func (g *n02Gen) nodes(n int, later []xid) []*xnode {
	r := g.r
	var out []*xnode
	ids := append([]xid{}, later...)
	for len(ids) < n {
		ids = append(ids, g.newID())
	}
	ids = ids[:max(n, len(later))]
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	// which of them are enumerations, so that the variables of this document may use them
	enum := map[xid]bool{}
	var rtypes []xid
	classes := make([]ua.NodeClass, len(ids))
	for i := range ids {
		classes[i] = n02Classes[r.Intn(len(n02Classes))]
		switch classes[i] {
		case ua.NodeClassDataType:
			if r.Intn(3) > 0 {
				enum[ids[i]] = true
				g.enums = append(g.enums, ids[i])
			}
		case ua.NodeClassReferenceType:
			rtypes = append(rtypes, ids[i])
		}
	}
	for i, id := range ids {
		x := &xnode{class: classes[i], id: id, bname: xname{g.anyURI(), g.str()}, disp: g.ltext(), rank: -1, exec: true, access: 1, dims: []uint32{}}
		if r.Intn(2) == 0 {
			x.desc = g.ltext()
		}
		x.abstract, x.sym, x.noLoops = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		if r.Intn(2) == 0 {
			x.notifier = []byte{0, 1, 4, 5}[r.Intn(4)]
		}
		switch x.class {
		case ua.NodeClassReferenceType:
			if r.Intn(3) > 0 {
				x.inv = g.ltext()
			}
		case ua.NodeClassMethod:
			x.exec = r.Intn(2) == 0
		case ua.NodeClassVariable, ua.NodeClassVariableType:
			if x.class == ua.NodeClassVariable {
				x.access = []byte{0, 1, 2, 3, 5, 7, 15}[r.Intn(7)]
				x.msi = []float64{0, -1, 100, 0.5, 1e6}[r.Intn(5)]
				x.historizing = r.Intn(2) == 0
			}
			switch r.Intn(10) {
			case 0: // no data type
			case 1: // no value
				dt := uaID([]uint32{1, 12, 10, 884, 22, 24}[r.Intn(6)])
				x.dt = &dt
				x.rank = int32([]int{-3, -2, -1, 0, 1, 2, 3}[r.Intn(7)])
				if x.rank > 0 {
					x.dims = []uint32{0, 5, 4294967295}[:x.rank]
				}
			default:
				dt, rank, v := g.value()
				x.dt, x.rank, x.val = &dt, rank, v
				if rank == 1 {
					x.dims = []uint32{uint32(r.Intn(3)) * 7}
				}
			}
		}
		have := map[xref]bool{}
		add := func(f xref) {
			// a reference that leads back the same way is the same reference
			if !have[f] {
				have[f] = true
				x.refs = append(x.refs, f)
			}
		}
		parent := func() xid {
			switch k := r.Intn(10); {
			case k < 4:
				return uaID([]uint32{85, 2253, 86, 61, 58, 63}[r.Intn(6)])
			case k < 7 && len(g.all) > 0:
				return g.all[r.Intn(len(g.all))].id
			}
			return ids[r.Intn(len(ids))]
		}
		if enum[id] {
			add(xref{uaID(45), true, uaID(29)})
		}
		if x.class == ua.NodeClassObject || x.class == ua.NodeClassVariable {
			if r.Intn(3) > 0 {
				add(xref{uaID(40), false, uaID(map[bool]uint32{true: 61, false: 63}[x.class == ua.NodeClassObject])})
			}
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			rt := uaID(n02RefTypes[r.Intn(len(n02RefTypes))])
			if len(rtypes) > 0 && r.Intn(4) == 0 {
				rt = rtypes[r.Intn(len(rtypes))]
			}
			if rt.uri == n02UA && rt.num == 45 && x.class == ua.NodeClassDataType {
				continue // keeps what is an enumeration and what is not apart
			}
			if rt.uri == n02UA && rt.num == 37 {
				add(xref{rt, false, uaID(78)})
				continue
			}
			t := parent()
			if rt.uri == n02UA && rt.num == 45 && (enum[t] || t.uri == n02UA) {
				continue
			}
			add(xref{rt, r.Intn(2) == 0, t})
		}
		out = append(out, x)
	}
	g.all = append(g.all, out...)
	return out
}

// render writes the nodes as a document.
func n02Render(r *rand.Rand, nodes []*xnode, own string, mangle func(i int, el string) string) string {
	d := &n02Doc{r: r, idx: map[string]int{}, aliases: map[string]string{}, byText: map[string]string{}, pfx: []string{"uax:", "", "t:"}[r.Intn(3)]}
	used := map[string]bool{}
	n02Uses(nodes, used)
	for u := range used {
		d.table = append(d.table, u)
	}
	if r.Intn(3) == 0 {
		d.table = append(d.table, n02UA)
	}
	if r.Intn(3) == 0 && !used[own] {
		d.table = append(d.table, own)
	}
	if r.Intn(4) == 0 {
		d.table = append(d.table, "urn:unused:"+strconv.Itoa(r.Intn(5)))
	}
	r.Shuffle(len(d.table), func(i, j int) { d.table[i], d.table[j] = d.table[j], d.table[i] })
	for i, u := range d.table {
		d.idx[u] = i + 1
	}
	var body strings.Builder
	for i, n := range nodes {
		el := d.node(n)
		if mangle != nil {
			el = mangle(i, el)
		}
		body.WriteString("  " + el + "\n" + d.space())
	}
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="utf-8"?>` + "\n")
	}
	b.WriteString(`<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd" xmlns:t="http://opcfoundation.org/UA/2008/02/Types.xsd"`)
	if r.Intn(2) == 0 {
		b.WriteString(` LastModified="2024-01-02T03:04:05Z"`)
	}
	b.WriteString(">\n")
	b.WriteString("<NamespaceUris>")
	for _, u := range d.table {
		b.WriteString(d.space() + "<Uri>" + d.text(u) + "</Uri>")
	}
	b.WriteString("</NamespaceUris>\n")
	if r.Intn(3) == 0 {
		b.WriteString(`<Models><Model ModelUri="urn:m" Version="1"><RequiredModel ModelUri="http://opcfoundation.org/UA/"/></Model></Models>`)
	}
	b.WriteString("<Aliases>")
	for a, s := range d.aliases {
		fmt.Fprintf(&b, `<Alias Alias="%s">%s</Alias>`, d.attr(a), d.text(s))
	}
	b.WriteString("</Aliases>\n")
	if r.Intn(4) == 0 {
		b.WriteString("<Extensions><Extension><x y='1'>z</x></Extension></Extensions>")
	}
	b.WriteString(body.String() + "</UANodeSet>\n")
	return b.String()
}

// n02Uses collects the namespaces that the nodes use, by rendering them once.
func n02Uses(nodes []*xnode, used map[string]bool) {
	note := func(u string) {
		if u != n02UA {
			used[u] = true
		}
	}
	for _, n := range nodes {
		note(n.id.uri)
		note(n.bname.uri)
		if n.dt != nil {
			note(n.dt.uri)
		}
		for _, f := range n.refs {
			note(f.typ.uri)
			note(f.target.uri)
		}
		if n.val != nil {
			for _, u := range n02ValueURIs(n.val) {
				note(u)
			}
		}
	}
}

// n02ValueURIs finds the namespaces a value uses: its meaning is evaluated with a recording table.
func n02ValueURIs(v *xval) (us []string) {
	for _, u := range n02AllURIs {
		w := &n02World{uris: []string{u}}
		e := &n02World{uris: []string{}}
		if !reflect.DeepEqual(v.want(w), v.want(e)) {
			us = append(us, u)
		}
	}
	return
}

var n02AllURIs []string

func (d *n02Doc) node(n *xnode) string {
	el := map[ua.NodeClass]string{ua.NodeClassObject: "UAObject", ua.NodeClassVariable: "UAVariable", ua.NodeClassMethod: "UAMethod", ua.NodeClassObjectType: "UAObjectType", ua.NodeClassVariableType: "UAVariableType", ua.NodeClassReferenceType: "UAReferenceType", ua.NodeClassDataType: "UADataType", ua.NodeClassView: "UAView"}[n.class]
	var as []string
	attr := func(k, v string) { as = append(as, k+`="`+d.attr(v)+`"`) }
	// an attribute that has its default value may be left out
	opt := func(k, v string, def bool) {
		if !def || d.r.Intn(2) == 0 {
			attr(k, v)
		}
	}
	attr("NodeId", d.id(n.id))
	attr("BrowseName", d.qname(n.bname))
	if d.r.Intn(4) == 0 {
		attr("SymbolicName", "x")
	}
	inner := []string{}
	lt := func(el string, t ua.LocalizedText) {
		l := ""
		if t.Locale != "" {
			l = ` Locale="` + d.attr(t.Locale) + `"`
		}
		inner = append(inner, "<"+el+l+">"+d.text(t.Text)+"</"+el+">")
	}
	lt("DisplayName", n.disp)
	if n.desc.Text != "" {
		lt("Description", n.desc)
	}
	if len(n.refs) > 0 {
		s := "<References>"
		for _, f := range n.refs {
			fw := ""
			if f.inverse {
				fw = ` IsForward="` + d.bool(false) + `"`
			} else if d.r.Intn(3) == 0 {
				fw = ` IsForward="` + d.bool(true) + `"`
			}
			s += d.space() + `<Reference ReferenceType="` + d.attr(d.ref(f.typ)) + `"` + fw + ">" + d.text(d.ref(f.target)) + "</Reference>"
		}
		inner = append(inner, s+"</References>")
	}
	switch n.class {
	case ua.NodeClassObjectType, ua.NodeClassDataType, ua.NodeClassVariableType, ua.NodeClassReferenceType:
		opt("IsAbstract", d.bool(n.abstract), !n.abstract)
	}
	switch n.class {
	case ua.NodeClassReferenceType:
		opt("Symmetric", d.bool(n.sym), !n.sym)
		if n.inv.Text != "" {
			lt("InverseName", n.inv)
		}
	case ua.NodeClassObject:
		opt("EventNotifier", strconv.Itoa(int(n.notifier)), n.notifier == 0)
	case ua.NodeClassView:
		opt("EventNotifier", strconv.Itoa(int(n.notifier)), n.notifier == 0)
		opt("ContainsNoLoops", d.bool(n.noLoops), !n.noLoops)
	case ua.NodeClassMethod:
		opt("Executable", d.bool(n.exec), n.exec)
	case ua.NodeClassVariable:
		opt("AccessLevel", strconv.Itoa(int(n.access)), n.access == 1)
		opt("MinimumSamplingInterval", strconv.FormatFloat(n.msi, 'g', -1, 64), n.msi == 0)
		opt("Historizing", d.bool(n.historizing), !n.historizing)
	}
	if n.class == ua.NodeClassVariable || n.class == ua.NodeClassVariableType {
		if n.dt != nil {
			attr("DataType", d.ref(*n.dt))
		}
		opt("ValueRank", strconv.Itoa(int(n.rank)), n.rank == -1)
		if len(n.dims) > 0 {
			var ds []string
			for _, x := range n.dims {
				ds = append(ds, fmt.Sprint(x))
			}
			attr("ArrayDimensions", strings.Join(ds, ","))
		}
		if n.val != nil {
			inner = append(inner, "<Value>"+d.space()+n.val.xml(d)+d.space()+"</Value>")
		}
	}
	d.r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	d.r.Shuffle(len(inner), func(i, j int) { inner[i], inner[j] = inner[j], inner[i] })
	s := "<" + el + " " + strings.Join(as, " ") + ">"
	for _, x := range inner {
		s += d.space() + x
	}
	return s + d.space() + "</" + el + ">"
}

func (w *n02World) load(c *Ctx, r *rand.Rand, doc string) error {
	if r.Intn(5) == 0 {
		f := filepath.Join(c.Dir, "n02-load.xml")
		must(os.WriteFile(f, []byte(doc), 0o644))
		return w.nm.LoadNodeSetFromFile(f)
	}
	return w.nm.LoadNodeSetFromBuffer([]byte(doc))
}

func runN02(c *Ctx) {
	for k := 0; k < c.N(8, 60) && !c.Violated(); k++ {
		n02Run(c, k)
	}
	if !c.Violated() {
		n02Standard(c)
	}
}

// n02Standard loads the standard node set and compares the address space with a plain reading of it.
func n02Standard(c *Ctx) {
	b, err := os.ReadFile("/repo/server/nodeset_1_04.xml")
	if err != nil {
		c.Count("standard_nodeset_not_found", 1)
		return
	}
	sw := newWorld(c, WorldOpts{})
	defer func() { go sw.Srv.Close() }()
	nm := sw.Srv.NamespaceManager()
	// the server removes what it does not support from the nodes it loads: they are loaded again
	if err := nm.LoadNodeSetFromBuffer(b); err != nil {
		c.Violate("standard", "the standard node set is refused: %v", err)
		return
	}
	aliases := map[string]string{}
	parse := func(s string) ua.NodeID {
		if a, ok := aliases[s]; ok {
			s = a
		}
		return ua.ParseNodeID(s)
	}
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = true
	var node server.Node
	var ref struct{ typ, fwd string }
	var path []string
	var text string
	classes := map[string]ua.NodeClass{"UAObject": ua.NodeClassObject, "UAVariable": ua.NodeClassVariable, "UAMethod": ua.NodeClassMethod, "UAObjectType": ua.NodeClassObjectType, "UAVariableType": ua.NodeClassVariableType, "UAReferenceType": ua.NodeClassReferenceType, "UADataType": ua.NodeClassDataType, "UAView": ua.NodeClassView}
	alias, symm, abstract := "", "", ""
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		at := func(e xml.StartElement, k string) string {
			for _, a := range e.Attr {
				if a.Name.Local == k {
					return a.Value
				}
			}
			return ""
		}
		switch e := t.(type) {
		case xml.StartElement:
			path = append(path, e.Name.Local)
			text = ""
			switch {
			case e.Name.Local == "Alias":
				alias = at(e, "Alias")
			case len(path) == 2 && classes[e.Name.Local] != 0:
				id := ua.ParseNodeID(at(e, "NodeId"))
				var ok bool
				if node, ok = nm.FindNode(id); !ok {
					c.Violate("standard", "standard node %v is missing", id)
					return
				}
				symm, abstract = at(e, "Symmetric"), at(e, "IsAbstract")
				if node.NodeClass() != classes[e.Name.Local] || node.BrowseName() != ua.NewQualifiedName(0, strings.TrimPrefix(at(e, "BrowseName"), "0:")) {
					c.Violate("standard", "standard node %v is %v %v, want %s %s", id, node.NodeClass(), node.BrowseName(), e.Name.Local, at(e, "BrowseName"))
				}
				o := n02Observe(node, nm.NamespaceUris(), false)
				if v, ok := o.attrs["abstract"]; ok && v != (abstract == "true") {
					c.Violate("standard", "standard node %v: abstract is %v", id, v)
				}
				if v, ok := o.attrs["sym"]; ok && v != (symm == "true") {
					c.Violate("standard", "standard node %v: symmetric is %v", id, v)
				}
				if v, ok := o.attrs["dt"]; ok {
					want := ua.NodeID(ua.DataTypeIDBaseDataType)
					if s := at(e, "DataType"); s != "" {
						want = parse(s)
					}
					if v != want {
						c.Violate("standard", "standard node %v: data type is %v, want %v", id, v, want)
					}
				}
				if v, ok := o.attrs["rank"]; ok {
					want := int32(-1)
					if s := at(e, "ValueRank"); s != "" {
						n, _ := strconv.Atoi(s)
						want = int32(n)
					}
					if v != want {
						c.Violate("standard", "standard node %v: value rank is %v, want %v", id, v, want)
					}
				}
				c.Eval("standard " + at(e, "NodeId"))
				c.Count("standard_nodes", 1)
			case e.Name.Local == "Reference":
				ref.typ, ref.fwd = at(e, "ReferenceType"), at(e, "IsForward")
			}
		case xml.CharData:
			text += string(e)
		case xml.EndElement:
			switch {
			case e.Name.Local == "Alias":
				aliases[alias] = text
			case len(path) == 3 && node != nil && e.Name.Local == "DisplayName":
				if node.DisplayName().Text != text {
					c.Violate("standard", "standard node %v: display name is %q, want %q", node.NodeID(), node.DisplayName().Text, text)
				}
			case len(path) == 3 && node != nil && e.Name.Local == "Description":
				if node.Description().Text != text {
					c.Violate("standard", "standard node %v: description is %q, want %q", node.NodeID(), node.Description().Text, text)
				}
			case len(path) == 4 && node != nil && e.Name.Local == "Reference":
				x := gEdge{parse(ref.typ), ref.fwd == "false", parse(text)}
				has := func(n server.Node, x gEdge) (k int) {
					for _, r := range n.References() {
						if r.ReferenceTypeID == x.rt && r.IsInverse == x.inverse && ua.ToNodeID(r.TargetID, nm.NamespaceUris()) == x.target {
							k++
						}
					}
					return
				}
				if k := has(node, x); k != 1 {
					c.Violate("standard", "standard node %v: reference %v is there %d times", node.NodeID(), x, k)
				}
				if t, ok := nm.FindNode(x.target); ok && !oneWay(x.rt) {
					if k := has(t, gEdge{x.rt, !x.inverse, node.NodeID()}); k != 1 {
						c.Violate("standard", "standard node %v: the reference back from %v is there %d times", node.NodeID(), x, k)
					}
				}
				c.Count("standard_references", 1)
			}
			path = path[:len(path)-1]
		}
	}
}

func n02Run(c *Ctx, run int) {
	r := c.Rng(fmt.Sprint("n02-", run))
	sw := newWorld(c, WorldOpts{})
	defer func() { go sw.Srv.Close() }()
	w := &n02World{w: sw, nm: sw.Srv.NamespaceManager()}
	s, err := sw.RawUser(raw.None, raw.ModeNone, "root", "secret")
	if err != nil {
		c.Inconclusive("session: %v", err)
		return
	}
	defer s.Close()
	for i := r.Intn(3); i > 0; i-- { // the server's table before the first document
		w.nm.Add(fmt.Sprintf("urn:n02:%d", r.Intn(6)))
	}
	own := w.nm.NamespaceUris()[1]
	g := &n02Gen{r: r, own: fmt.Sprint(run), uris: []string{"urn:n02:0", "urn:n02:1", "urn:n02:2", "urn:n02:3", "http://x/?a=1&b=<2>", own}}
	n02AllURIs = append([]string{n02UA}, g.uris...)
	var known []ua.NodeID
	var later []xid
	want := w.snapshot(nil)
	var missing []*xnode // referred to, not loaded yet
	docs := c.N(14, 24)
	for k := 0; k < docs && !c.Violated(); k++ {
		nodes := g.nodes(1+r.Intn(c.N(30, 60)), later)
		later = nil
		// some nodes are left for the next document
		for len(nodes) > 2 && r.Intn(3) == 0 {
			missing = append(missing, nodes[len(nodes)-1])
			nodes = nodes[:len(nodes)-1]
		}
		if r.Intn(2) == 0 || k == docs-1 {
			nodes = append(nodes, missing...)
			missing = nil
		}
		r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		n02EnumsKnown(g, nodes, missing)
		if r.Intn(3) == 0 {
			if !n02Invalid(c, w, r, nodes, own, want, known) {
				return
			}
		}
		doc := n02Render(r, nodes, own, nil)
		before := append([]string{}, w.nm.NamespaceUris()...)
		if err := w.load(c, r, doc); err != nil {
			os.WriteFile(filepath.Join(c.Dir, "n02.xml"), []byte(doc), 0o644)
			c.Violate("refused", "run %d document %d is refused: %v", run, k, err)
			return
		}
		w.uris = w.nm.NamespaceUris()
		seen := map[string]bool{}
		for i, u := range w.uris {
			if seen[u] || (i < len(before) && before[i] != u) {
				c.Violate("namespaces", "namespace table was %q, is %q", before, w.uris)
				return
			}
			seen[u] = true
		}
		for _, n := range nodes {
			id := w.id(n.id)
			known = append(known, id)
			want[id] = w.expect(n)
		}
		want.link()
		got := w.snapshot(known)
		if !n02Compare(c, fmt.Sprintf("run %d document %d", run, k), want, got, func() string { return doc }) {
			return
		}
		for _, n := range nodes {
			c.Eval(n02Sig(n, doc))
			c.Count("nodes", 1)
			if n.val != nil {
				c.Count("values", 1)
			}
			c.Count("references", len(n.refs))
		}
		c.Count("documents", 1)
		if k == 1 {
			c.Sample("node set", doc[:min(len(doc), 1500)])
		}
		for j := 0; j < 6; j++ {
			n02Client(c, w, s, want, w.id(nodes[r.Intn(len(nodes))].id))
		}
	}
	if c.Violated() {
		return
	}
	n02Malformed(c, w, r, g, own, known)
}

// n02EnumsKnown: a variable of an enumeration that is to come later has no value that could be told.
func n02EnumsKnown(g *n02Gen, nodes, missing []*xnode) {
	out := map[xid]bool{}
	for _, m := range missing {
		out[m.id] = true
	}
	for _, n := range nodes {
		if n.val != nil && n.val.kind == "enumeration" && out[*n.dt] {
			dt := uaID(307)
			n.dt = &dt
		}
	}
}

func n02Sig(n *xnode, doc string) string {
	s := fmt.Sprint(n.class, n.id.kind, n.abstract, n.sym, n.notifier, n.exec, n.rank, n.access, n.historizing, n.msi, len(n.refs), n.desc.Text != "")
	if n.val != nil {
		s += n.val.kind
	}
	return s
}

// n02Client reads and browses a node as a client would.
func n02Client(c *Ctx, w *n02World, s *raw.Client, want n02State, id ua.NodeID) {
	e := want[id]
	attrs := map[string]uint32{"class": ua.AttributeIDNodeClass, "bname": ua.AttributeIDBrowseName, "disp": ua.AttributeIDDisplayName, "desc": ua.AttributeIDDescription, "abstract": ua.AttributeIDIsAbstract, "sym": ua.AttributeIDSymmetric, "inv": ua.AttributeIDInverseName, "notifier": ua.AttributeIDEventNotifier, "noLoops": ua.AttributeIDContainsNoLoops, "exec": ua.AttributeIDExecutable, "dt": ua.AttributeIDDataType, "rank": ua.AttributeIDValueRank, "dims": ua.AttributeIDArrayDimensions, "access": ua.AttributeIDAccessLevel, "msi": ua.AttributeIDMinimumSamplingInterval, "hist": ua.AttributeIDHistorizing, "value": ua.AttributeIDValue}
	var keys []string
	var rd []ua.ReadValueID
	for k := range e.attrs {
		if k == "value" && (e.attrs["class"] != ua.NodeClassVariable || e.attrs["access"].(byte)&1 == 0) {
			continue
		}
		if k == "inv" && e.attrs["sym"] == true {
			continue
		}
		keys = append(keys, k)
		rd = append(rd, ua.ReadValueID{NodeID: id, AttributeID: attrs[k]})
	}
	res, err := s.Do(&ua.ReadRequest{NodesToRead: rd})
	if err != nil {
		c.Violate("client", "read of %v: %v", id, err)
		return
	}
	for i, v := range res.(*ua.ReadResponse).Results {
		k := keys[i]
		x := e.attrs[k]
		if k == "class" {
			x = int32(x.(ua.NodeClass))
		}
		if es, ok := x.([]ua.ExtensionObject); ok {
			x = n02Norm(es)
			if gs, ok := v.Value.([]ua.ExtensionObject); ok {
				v.Value = n02Norm(gs)
			}
		}
		if v.StatusCode.IsBad() || !n02Same(x, v.Value) {
			c.Violate("client:"+k, "client reads %s of %v as %T %+v (%#x), want %T %+v", k, id, v.Value, v.Value, uint32(v.StatusCode), x, x)
		}
		c.Count("client_attributes", 1)
	}
	br, err := s.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: id, BrowseDirection: ua.BrowseDirectionBoth, IncludeSubtypes: true, ResultMask: 63}}})
	if err != nil {
		c.Violate("client", "browse of %v: %v", id, err)
		return
	}
	got := map[gEdge]int{}
	for _, d := range br.(*ua.BrowseResponse).Results[0].References {
		got[gEdge{d.ReferenceTypeID, !d.IsForward, ua.ToNodeID(d.NodeID, w.uris)}]++
	}
	for x := range e.edges {
		if want[x.target] != nil && got[x] != 1 {
			c.Violate("client:browse", "client sees %d times %v of %v", got[x], x, id)
		}
	}
	for x := range got {
		if e.edges[x] == 0 {
			c.Violate("client:browse", "client sees %v of %v", x, id)
		}
	}
	c.Count("client_browses", 1)
}

// n02Norm removes the difference between no dimensions and none given.
func n02Norm(es []ua.ExtensionObject) []ua.ExtensionObject {
	out := append([]ua.ExtensionObject{}, es...)
	for i, e := range out {
		if a, ok := e.(ua.Argument); ok && len(a.ArrayDimensions) == 0 {
			a.ArrayDimensions = nil
			out[i] = a
		}
	}
	return out
}

var n02BadIDs = []string{"", "ns=1", "x=5", "i=abc", "i=-1", "i=4294967296", "ns=a;i=1", "ns=70000;i=1", "g=nope", "b=%%%", "NoSuchAlias", "85", "ns=1;"}

// n02Invalid loads the nodes with one of them spoilt: the document is refused and nothing changes.
func n02Invalid(c *Ctx, w *n02World, r *rand.Rand, nodes []*xnode, own string, want n02State, known []ua.NodeID) bool {
	at := r.Intn(len(nodes))
	what := ""
	doc := n02Render(r, nodes, own, func(i int, el string) string {
		if i != at {
			return el
		}
		bad := n02BadIDs[r.Intn(len(n02BadIDs))]
		set := func(from, end, to string) string {
			k := strings.Index(el, from)
			if k < 0 {
				return ""
			}
			j := k + len(from)
			e := strings.Index(el[j:], end)
			what = fmt.Sprintf("%s is %q", from, to)
			return el[:j] + to + el[j+e:]
		}
		var o string
		switch r.Intn(6) {
		case 0:
			o = set(`<Reference ReferenceType="`, `"`, bad)
		case 1:
			o = set(` IsAbstract="`, `"`, "maybe")
		case 2:
			o = set(` EventNotifier="`, `"`, []string{"256", "-1", "x"}[r.Intn(3)])
		case 3:
			o = set(` MinimumSamplingInterval="`, `"`, "fast")
		case 4:
			for _, n := range []string{"Int32", "UInt16", "Boolean", "Double", "DateTime", "ByteString"} {
				for _, p := range []string{"<uax:", "<", "<t:"} {
					if nn := nodes[i]; nn.val != nil && !strings.Contains(nn.val.kind, "Variant") && o == "" {
						if o = set(p+n+">", "<", "!#?"); o != "" && !n02Plain(o) {
							o = ""
						}
					}
				}
			}
		}
		if o == "" {
			o = set(` NodeId="`, `"`, bad)
		}
		return o
	})
	err := w.load(c, r, doc)
	if err == nil {
		os.WriteFile(filepath.Join(c.Dir, "n02.xml"), []byte(doc), 0o644)
		c.Violate("accepted", "a document with an invalid node (%s) is loaded without an error", what)
		return false
	}
	c.Eval("invalid " + what)
	c.Count("invalid_documents", 1)
	// its namespaces may have been registered
	return n02Compare(c, "after a refused document ("+what+")", want, w.snapshot(known), func() string { return doc })
}

func n02Plain(s string) bool { return wellFormed([]byte(s)) }

// wellFormed scans the document up to the end of its root element.
func wellFormed(b []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(b))
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return true
			}
		}
	}
}

// n02Malformed feeds damaged documents: none may stop the process, and one that is not XML is refused and changes nothing.
func n02Malformed(c *Ctx, w *n02World, r *rand.Rand, g *n02Gen, own string, known []ua.NodeID) {
	base := w.snapshot(known)
	for k := 0; k < c.N(60, 250) && !c.Violated(); k++ {
		nodes := g.nodes(1+r.Intn(6), nil)
		g.all = g.all[:len(g.all)-len(nodes)]
		doc := []byte(n02Render(r, nodes, own, nil))
		n := 1 + r.Intn(3)
		for j := 0; j < n; j++ {
			doc = n02Mutate(r, doc)
		}
		ok := wellFormed(doc)
		os.WriteFile(filepath.Join(c.Dir, "n02.xml"), doc, 0o644)
		var err error
		if !within(30*time.Second, func() { err = w.nm.LoadNodeSetFromBuffer(doc) }) {
			c.Violate("hang", "loading a damaged document takes more than 30 s: %q", doc)
			return
		}
		if !ok {
			if err == nil {
				c.Violate("malformed", "a document that is not well-formed is loaded without an error: %q", doc)
				return
			}
			c.Eval(fmt.Sprintf("malformed %x", len(doc)))
		} else {
			c.Eval("")
		}
		c.Count(fmt.Sprintf("damaged_wellformed_%v_error_%v", ok, err != nil), 1)
		if err != nil {
			if !n02Compare(c, "after a refused damaged document", base, w.snapshot(known), func() string { return string(doc) }) {
				return
			}
		} else {
			for _, n := range nodes {
				known = append(known, w.id(n.id))
			}
			base = w.snapshot(known)
		}
	}
	for _, d := range []string{"", " ", "hello", "<", "<UANodeSet", "<UANodeSet>", "<UANodeSet><UAObject NodeId=\"i=1\"></UANodeSet>", "<!DOCTYPE x [<!ENTITY a \"b\">]><UANodeSet>&a;</UANodeSet", strings.Repeat("<UAObject>", 20000), "\xff\xfe<\x00"} {
		if err := w.nm.LoadNodeSetFromBuffer([]byte(d)); err == nil {
			c.Violate("malformed", "%.60q is loaded without an error", d)
		}
		c.Eval("malformed " + d[:min(len(d), 30)])
	}
	if err := w.nm.LoadNodeSetFromFile(filepath.Join(c.Dir, "no-such-file.xml")); err == nil {
		c.Violate("malformed", "a file that does not exist is loaded without an error")
	}
	w.load(c, r, n02Crash)
	n02Compare(c, "after the documents that are not XML", base, func() n02State {
		st := w.snapshot(known)
		for id := range st {
			if base[id] == nil && nodeNS(id) == w.ns("urn:n02:crash") {
				delete(st, id)
			}
		}
		for id, n := range st {
			for e := range n.edges {
				if nodeNS(e.target) == w.ns("urn:n02:crash") {
					delete(n.edges, e)
				}
			}
			_ = id
		}
		return st
	}(), func() string { return "" })
}

// n02Crash has values that do not fit the data types of their variables: what they become is not told, but loading ends.
const n02Crash = `<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd">
<NamespaceUris><Uri>urn:n02:crash</Uri></NamespaceUris>
<UAVariable NodeId="ns=1;i=1" BrowseName="1:a" DataType="i=884"><Value><uax:ExtensionObject><uax:Body><uax:Argument><uax:Name>x</uax:Name></uax:Argument></uax:Body></uax:ExtensionObject></Value></UAVariable>
<UAVariable NodeId="ns=1;i=2" BrowseName="1:b" DataType="i=887"><Value><uax:ExtensionObject/></Value></UAVariable>
<UAVariable NodeId="ns=1;i=3" BrowseName="1:c" DataType="i=296" ValueRank="1"><Value><uax:ListOfExtensionObject><uax:ExtensionObject/></uax:ListOfExtensionObject></Value></UAVariable>
<UAVariable NodeId="ns=1;i=4" BrowseName="1:d" DataType="i=7594" ValueRank="1"><Value><uax:ListOfExtensionObject><uax:ExtensionObject><uax:Body><uax:Range/></uax:Body></uax:ExtensionObject></uax:ListOfExtensionObject></Value></UAVariable>
<UAVariable NodeId="ns=1;i=5" BrowseName="1:e" DataType="i=6" ValueRank="1"><Value><uax:String>x</uax:String></Value></UAVariable>
<UAVariable NodeId="ns=1;i=6" BrowseName="1:f" DataType="i=14" ValueRank="1"><Value><uax:ListOfGuid><uax:Guid><uax:String>nope</uax:String></uax:Guid><uax:Guid/></uax:ListOfGuid></Value></UAVariable>
<UAVariable NodeId="ns=1;i=7" BrowseName="1:g" DataType="i=16" ValueRank="1"><Value><uax:ListOfXmlElement><uax:XmlElement/></uax:ListOfXmlElement></Value></UAVariable>
<UAVariable NodeId="ns=1;i=8" BrowseName="1:h" DataType="i=24" ValueRank="1"><Value><uax:ListOfVariant><uax:Int32>x</uax:Int32><uax:Foo/><uax:Guid/><uax:ExtensionObject/></uax:ListOfVariant></Value></UAVariable>
</UANodeSet>`

func n02Mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	i := r.Intn(len(b))
	switch r.Intn(7) {
	case 0:
		return b[:max(1, i)]
	case 1:
		b[i] ^= 1 << r.Intn(8)
	case 2:
		j := min(len(b), i+1+r.Intn(40))
		return append(b[:i], b[j:]...)
	case 3:
		ins := []string{"<", ">", "&", "\"", "</", "<x>", "<x/>", "&#0;", "&foo;", "<!--", "]]>", "\x00", "<UAFoo/>", "\xff"}[r.Intn(14)]
		return append(b[:i:i], append([]byte(ins), b[i:]...)...)
	case 4: // a part is there twice
		j := min(len(b), i+r.Intn(200))
		return append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
	case 5: // an element loses its end tag or its name changes
		if k := bytes.Index(b[i:], []byte("</")); k >= 0 {
			e := bytes.IndexByte(b[i+k:], '>')
			if e > 0 {
				return append(b[:i+k:i+k], b[i+k+e+1:]...)
			}
		}
	case 6: // digits change
		for k := i; k < len(b); k++ {
			if b[k] >= '0' && b[k] <= '9' {
				b[k] = "0123456789-x"[r.Intn(12)]
				break
			}
		}
	}
	if len(b) == 0 {
		return []byte("<")
	}
	return b
}
