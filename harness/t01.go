package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("T01", &check{run: runT01, minEvals: 1200, minDistinct: 500,
		rule:        "independent peers and a cutting proxy: the value stored by the server and every response must be byte-identical to what was sent, for body sizes around every chunk boundary; negotiated buffers bound every chunk on the wire; messages beyond a limit are errors without effect",
		assumptions: []string{"message sizes are those of the unencrypted message body, as the specification counts them"}})
}

type polMode struct {
	p *raw.Policy
	m int
}

func (x polMode) String() string { return fmt.Sprintf("%s/%d", x.p.Name, x.m) }

func allModes() []polMode {
	ms := []polMode{{raw.None, raw.ModeNone}}
	for _, p := range raw.Policies {
		ms = append(ms, polMode{p, raw.ModeSign}, polMode{p, raw.ModeSignAndEncrypt})
	}
	return ms
}

// bodyMax is the largest body of a chunk in a buffer of the given size.
func bodyMax(x polMode, buf uint32) int {
	c := raw.Chan{Policy: x.p, Mode: x.m, SendBuf: buf}
	return c.MaxBody()
}

func payload(r *rand.Rand, n int) ua.ByteString {
	b := make([]byte, n)
	r.Read(b)
	return ua.ByteString(b)
}

func writeReq(id ua.NodeID, v ua.Variant) *ua.WriteRequest {
	return &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: id, AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(v, 0, time.Time{}, 0, time.Time{}, 0)}}}
}

func readReq(id ua.NodeID) *ua.ReadRequest {
	return &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: ua.AttributeIDValue}}, TimestampsToReturn: ua.TimestampsToReturnNeither}
}

// sendCut sends a message with chosen chunk body sizes, in arbitrary TCP segments. Returns the number of chunks.
func sendCut(c *raw.Client, r *rand.Rand, id uint32, body []byte, sizes func(left int) int, cut int) (int, error) {
	n := 0
	var all []byte
	for {
		k := sizes(len(body))
		if m := c.MaxBody(); k > m {
			k = m
		}
		typ := "MSGC"
		if k >= len(body) {
			k, typ = len(body), "MSGF"
		}
		all = append(all, c.SealSym(typ, c.ChannelID, c.TokenID, c.NextSeq(), id, body[:k])...)
		body = body[k:]
		n++
		if typ == "MSGF" {
			break
		}
	}
	if !segWrite(c.Conn, all, cut, r) {
		return n, fmt.Errorf("write failed")
	}
	return n, nil
}

func runT01(c *Ctx) {
	r := c.Rng("main")
	t01Server(c, r)
	t01Client(c, r)
	t01Limits(c, r)
	t01ClientLimits(c, r)
}

// recvChecked receives a response and judges its chunks.
func recvChecked(c *Ctx, x polMode, cl *raw.Client, recvBuf uint32, id uint32, lastSeq *uint32) (ua.ServiceResponse, int, error) {
	m, err := cl.RecvMsg()
	if err != nil {
		return nil, 0, err
	}
	for i, f := range m.Frames {
		if uint32(len(f)) > recvBuf {
			c.Violate("chunk-size", "%v: the server sent a chunk of %d bytes to a client with a receive buffer of %d", x, len(f), recvBuf)
		}
		o := m.Chunks[i]
		if o.ReqID != id {
			c.Violate("request-id", "%v: chunk %d of the response to request %d carries request id %d", x, i, id, o.ReqID)
		}
		if *lastSeq != 0 && o.Seq != *lastSeq+1 {
			c.Violate("sequence", "%v: sequence number %d after %d", x, o.Seq, *lastSeq)
		}
		*lastSeq = o.Seq
		if len(o.Body) == 0 {
			c.Violate("empty-chunk", "%v: the server sent a chunk without content", x)
		}
		c.Count("response_chunks", 1)
	}
	v, err := raw.Decode(m.Body)
	if err != nil {
		c.Violate("undecodable", "%v: response of %d chunks does not decode: %v", x, len(m.Frames), err)
		return nil, 0, err
	}
	return v.(ua.ServiceResponse), len(m.Body), nil
}

// t01Server: the server against independent clients with arbitrary chunking and segmentation.
func t01Server(c *Ctx, r *rand.Rand) {
	type cfg struct {
		buf       uint32
		skey, key string
	}
	var wg sync.WaitGroup
	for ci, cf := range []cfg{{65536, "k0", "k1"}, {8192, "k0", "k3072"}, {10007, "k4096", "k1"}, {65536, "k3072", "k4096"}} {
		w := newWorld(c, WorldOpts{ServerKey: cf.skey, ClientKey: cf.key, Opts: []server.Option{bigCaps(), server.WithTransportLimits(cf.buf, 16<<20, 4096)}})
		defer w.Srv.Close()
		for mi, x := range allModes() {
			if ci > 0 && mi%3 != ci%3 && !c.Thorough() {
				continue
			}
			rr := rand.New(rand.NewSource(r.Int63()))
			node := w.addVar(VarSpec{Name: fmt.Sprintf("T01.%d.%d", ci, mi), Value: ua.ByteString(""), DataType: ua.DataTypeIDByteString})
			x := x
			cf := cf
			wg.Add(1)
			go func() {
				defer wg.Done()
				for round := 0; round < c.N(2, 8); round++ {
					sizes := []uint32{8192, 8193, 8195, 8199, 8208, 9001, 12345, 20000, 65535, 65536, 70000, 1 << 20}
					rb, sb := sizes[rr.Intn(len(sizes))], sizes[rr.Intn(len(sizes))]
					cl, err := w.RawSession(x.p, x.m, func(q *raw.Config) { q.RecvBuf, q.SendBuf = rb, sb })
					if err != nil {
						c.Violate("connect", "%v buffers %d/%d server %d: %v", x, rb, sb, cf.buf, err)
						return
					}
					if cl.SendBuf > sb || cl.SendBuf > cf.buf || cl.RecvBuf > rb || cl.RecvBuf > cf.buf {
						c.Violate("negotiate", "hello %d/%d to a server with %d was acknowledged with %d/%d", rb, sb, cf.buf, cl.RecvBuf, cl.SendBuf)
					}
					cl.Conn.SetDeadline(time.Now().Add(120 * time.Second))
					mb, rmb := cl.MaxBody(), bodyMax(x, cl.RecvBuf)
					over := len(raw.MustEncode(prepped(cl, writeReq(node.NodeID(), ua.ByteString("x"))))) - 1
					rover := 0
					var last uint32
					for k := 0; k < c.N(14, 40); k++ {
						// choose the size of the request body or of the response body
						var n int
						chunks := 1 + rr.Intn(4)
						if rr.Intn(6) == 0 {
							chunks = 5 + rr.Intn(12)
						}
						if rover == 0 || k%2 == 0 {
							n = chunks*mb + rr.Intn(7) - 3 - over
						} else {
							n = chunks*rmb + rr.Intn(7) - 3 - rover
						}
						if k == 0 {
							n = rr.Intn(3)
						} else if rr.Intn(8) == 0 {
							n = rr.Intn(40)
						}
						if n < 0 {
							n = 0
						}
						p := payload(rr, n)
						body := raw.MustEncode(prepped(cl, writeReq(node.NodeID(), p)))
						id := cl.NextReq()
						var sz func(int) int
						kind := rr.Intn(4)
						switch kind {
						case 0, 1:
							sz = func(int) int { return mb }
						case 2:
							sz = func(l int) int { return 1 + rr.Intn(mb) }
						default:
							lo := len(body)/60 + 1
							sz = func(int) int { return lo + rr.Intn(lo) }
						}
						nc, err := sendCut(cl, rr, id, body, sz, []int{0, 0, 3000, 40000}[rr.Intn(4)])
						if err == nil {
							var res ua.ServiceResponse
							res, _, err = recvChecked(c, x, cl, cl.RecvBuf, id, &last)
							if err == nil {
								wr, ok := res.(*ua.WriteResponse)
								if !ok || wr.ServiceResult != ua.Good || len(wr.Results) != 1 || wr.Results[0] != ua.Good {
									c.Violate("write", "%v: a write of %d bytes in %d chunks was answered by %T %v", x, n, nc, res, res.Header().ServiceResult)
									return
								}
							}
						}
						if err != nil {
							c.Violate("write-lost", "%v buffers %d/%d: a write of %d bytes in %d chunks (body %d, kind %d): %v", x, cl.RecvBuf, cl.SendBuf, n, nc, len(body), kind, err)
							return
						}
						if got, ok := node.Value().Value.(ua.ByteString); !ok || got != p {
							c.Violate("request-altered", "%v: a value of %d bytes sent in %d chunks was stored as %d other bytes", x, n, nc, len(got))
							return
						}
						id, err = cl.Send(readReq(node.NodeID()))
						if err != nil {
							c.Violate("read-lost", "%v: %v", x, err)
							return
						}
						res, bl, err := recvChecked(c, x, cl, cl.RecvBuf, id, &last)
						if err != nil {
							c.Violate("read-lost", "%v buffers %d/%d: reading %d bytes: %v", x, cl.RecvBuf, cl.SendBuf, n, err)
							return
						}
						rd, ok := res.(*ua.ReadResponse)
						if !ok || len(rd.Results) != 1 {
							c.Violate("read", "%v: reading %d bytes was answered by %T", x, n, res)
							return
						}
						if got, _ := rd.Results[0].Value.(ua.ByteString); got != p {
							c.Violate("response-altered", "%v: a value of %d bytes was read as %d other bytes", x, n, len(got))
							return
						}
						rover = bl - n
						c.Count("request_chunks", nc)
						c.Eval(fmt.Sprintf("srv/%v/%d/%d/%d/%d", x, cf.buf, len(body)%mb, nc, kind))
						c.Eval(fmt.Sprintf("rsp/%v/%d/%d/%d", x, cf.buf, bl%rmb, bl/rmb))
					}
					cl.Close()
				}
			}()
		}
	}
	wg.Wait()
}

func bigCaps() server.Option {
	return server.WithServerCapabilities(capsWith(func(x *ua.ServerCapabilities) { x.MaxByteStringLength = 64 << 20 }))
}

func prepped(cl *raw.Client, q ua.ServiceRequest) ua.ServiceRequest { cl.Prep(q); return q }

// t01Client: the client against the server through a proxy that cuts the stream and watches chunk sizes, with concurrent requests.
func t01Client(c *Ctx, r *rand.Rand) {
	w := newWorld(c, WorldOpts{Opts: []server.Option{bigCaps(), server.WithTransportLimits(40000, 16<<20, 4096)}})
	defer w.Srv.Close()
	ns := w.ensureNS()
	obj := server.NewObjectNode(w.Srv, ua.NewNodeIDString(ns, "T01.obj"), ua.NewQualifiedName(ns, "T01.obj"), ua.NewLocalizedText("o", ""), ua.LocalizedText{}, nil, []ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.ObjectTypeIDBaseObjectType)}, 0)
	must(w.Srv.NamespaceManager().AddNode(obj))
	meth := server.NewMethodNode(w.Srv, ua.NewNodeIDString(ns, "T01.echo"), ua.NewQualifiedName(ns, "T01.echo"), ua.NewLocalizedText("echo", ""), ua.LocalizedText{}, nil, []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(obj.NodeID())}}, true)
	must(w.Srv.NamespaceManager().AddNode(meth))
	meth.SetCallMethodHandler(func(s *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
		out := append([]ua.Variant{}, q.InputArguments...)
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
		return ua.CallMethodResult{OutputArguments: out}
	})
	var wg sync.WaitGroup
	for i, x := range allModes() {
		rr := rand.New(rand.NewSource(r.Int63()))
		x := x
		i := i
		buf := []uint32{8192, 8197, 16384, 65536, 9999, 40000}[rr.Intn(6)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			px := newProxy(w.URL, rand.New(rand.NewSource(rr.Int63())))
			defer px.Close()
			px.Cut = []int{0, 500, 6000}[rr.Intn(3)]
			var mu sync.Mutex
			type neg struct{ hel, ack []byte }
			negs := map[int]*neg{}
			px.Frame = func(conn, dir int, f []byte) []byte {
				mu.Lock()
				defer mu.Unlock()
				n := negs[conn]
				if n == nil {
					n = &neg{}
					negs[conn] = n
				}
				switch string(f[:4]) {
				case "HELF":
					n.hel = f
				case "ACKF":
					n.ack = f
				default:
					if len(n.ack) < 28 || len(n.hel) < 28 {
						return f
					}
					// the receiver's buffer bounds the chunk
					lim := binary.LittleEndian.Uint32(n.ack[12:])
					if dir == 1 {
						lim = binary.LittleEndian.Uint32(n.hel[12:])
						if l := binary.LittleEndian.Uint32(n.ack[16:]); l < lim {
							lim = l
						}
					}
					if uint32(len(f)) > lim {
						c.Violate("wire-chunk-size", "%v: a chunk of %d bytes for a receiver with a buffer of %d (direction %d)", x, len(f), lim, dir)
					}
					c.Count("wire_chunks", 1)
				}
				return f
			}
			cl, err := dialURL(w, px.URL, x.p, x.m, client.WithTransportLimits(buf, 16<<20, 4096))
			if err != nil {
				c.Violate("client-connect", "%v buffer %d: %v", x, buf, err)
				return
			}
			defer cl.Abort(bg())
			eff := buf
			if eff > 40000 {
				eff = 40000
			}
			mb := bodyMax(x, eff)
			var cw sync.WaitGroup
			for g := 0; g < 4; g++ {
				gr := rand.New(rand.NewSource(rr.Int63()))
				node := w.addVar(VarSpec{Name: fmt.Sprintf("T01c.%d.%d", i, g), Value: ua.ByteString(""), DataType: ua.DataTypeIDByteString})
				cw.Add(1)
				go func() {
					defer cw.Done()
					for k := 0; k < c.N(12, 60); k++ {
						ch := gr.Intn(4)
						n := ch*mb + gr.Intn(160) - 155
						if gr.Intn(3) == 0 || n < 0 {
							n = gr.Intn(300)
						}
						p := payload(gr, n)
						if k%3 == 2 {
							q := payload(gr, gr.Intn(50))
							res, err := cl.Call(bg(), &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: obj.NodeID(), MethodID: meth.NodeID(), InputArguments: []ua.Variant{p, q}}}})
							if err != nil || len(res.Results) != 1 || len(res.Results[0].OutputArguments) != 2 {
								c.Violate("client-call", "%v buffer %d: echoing %d bytes failed: %v", x, buf, n, err)
								return
							}
							a, _ := res.Results[0].OutputArguments[1].(ua.ByteString)
							b, _ := res.Results[0].OutputArguments[0].(ua.ByteString)
							if a != p || b != q {
								c.Violate("client-call-altered", "%v buffer %d: %d bytes came back altered", x, buf, n)
								return
							}
							c.Eval(fmt.Sprintf("call/%v/%d/%d", x, buf, n/50))
							continue
						}
						res, err := cl.Write(bg(), writeReq(node.NodeID(), p))
						if err != nil || len(res.Results) != 1 || res.Results[0] != ua.Good {
							c.Violate("client-write", "%v buffer %d: writing %d bytes failed: %v", x, buf, n, err)
							return
						}
						if got, _ := node.Value().Value.(ua.ByteString); got != p {
							c.Violate("client-request-altered", "%v buffer %d: %d bytes were stored as %d other bytes", x, buf, n, len(got))
							return
						}
						rd, err := cl.Read(bg(), readReq(node.NodeID()))
						if err != nil || len(rd.Results) != 1 {
							c.Violate("client-read", "%v buffer %d: reading %d bytes failed: %v", x, buf, n, err)
							return
						}
						if got, _ := rd.Results[0].Value.(ua.ByteString); got != p {
							c.Violate("client-response-altered", "%v buffer %d: %d bytes were read as %d other bytes", x, buf, n, len(got))
							return
						}
						c.Eval(fmt.Sprintf("cli/%v/%d/%d", x, buf, n))
					}
				}()
			}
			cw.Wait()
		}()
	}
	wg.Wait()
}

// t01Limits: messages at and beyond the negotiated limits of the server, and of a client of the server.
func t01Limits(c *Ctx, r *rand.Rand) {
	const sbuf, smsg, schunks = 8192, 60000, 6
	w := newWorld(c, WorldOpts{Opts: []server.Option{bigCaps(), server.WithTransportLimits(sbuf, smsg, schunks)}})
	defer w.Srv.Close()
	w2 := newWorld(c, WorldOpts{Opts: []server.Option{bigCaps()}})
	defer w2.Srv.Close()
	var wg sync.WaitGroup
	for i, x := range allModes() {
		rr := rand.New(rand.NewSource(r.Int63()))
		x := x
		node := w.addVar(VarSpec{Name: fmt.Sprintf("T01l.%d", i), Value: ua.ByteString("start"), DataType: ua.DataTypeIDByteString})
		node2 := w2.addVar(VarSpec{Name: fmt.Sprintf("T01m.%d", i), Value: ua.ByteString(""), DataType: ua.DataTypeIDByteString})
		wg.Add(1)
		go func() {
			defer wg.Done()
			dial := func(w *World, f func(*raw.Config)) *raw.Client {
				cl, err := w.RawSession(x.p, x.m, f)
				if err != nil {
					c.Violate("connect", "%v: %v", x, err)
					return nil
				}
				cl.Conn.SetDeadline(time.Now().Add(60 * time.Second))
				return cl
			}
			nop := func(*raw.Config) {}
			// requests: body of the limit and beyond; chunks of the limit and beyond
			for k := 0; k < c.N(8, 24); k++ {
				cl := dial(w, nop)
				if cl == nil {
					return
				}
				mb := cl.MaxBody()
				over := len(raw.MustEncode(prepped(cl, writeReq(node.NodeID(), ua.ByteString("x"))))) - 1
				var bodyLen, nch int
				switch k % 4 {
				case 0: // within
					nch = schunks
					bodyLen = smsg - 1 - rr.Intn(3)
					if max := nch * mb; bodyLen > max {
						bodyLen = max
					}
				case 1: // too many chunks of a small message
					nch = schunks + 1 + rr.Intn(3)
					bodyLen = 2000 + rr.Intn(2000)
				case 2: // chunks at the limit, small
					nch = schunks
					bodyLen = over + 100 + rr.Intn(2000)
				case 3: // too many chunks because it is large
					nch = schunks + 2 + rr.Intn(3)
					bodyLen = schunks*mb + 1 + rr.Intn(mb)
				}
				p := payload(rr, bodyLen-over)
				before, _ := node.Value().Value.(ua.ByteString)
				body := raw.MustEncode(prepped(cl, writeReq(node.NodeID(), p)))
				id := cl.NextReq()
				per := (len(body) + nch - 1) / nch
				n, err := sendCut(cl, rr, id, body, func(int) int { return per }, 0)
				ok := n <= schunks && len(body) <= smsg
				var res ua.ServiceResponse
				if err == nil {
					_, res, err = cl.Recv()
				}
				good := err == nil && res.Header().ServiceResult == ua.Good
				after, _ := node.Value().Value.(ua.ByteString)
				if ok && (!good || after != p) {
					c.Violate("limit-refused", "%v: a request of %d bytes in %d chunks within the limits %d/%d failed: %v", x, len(body), n, smsg, schunks, err)
				}
				if !ok && (good || after != before) {
					c.Violate("limit-accepted", "%v: a request of %d bytes in %d chunks was accepted beyond the limits %d/%d", x, len(body), n, smsg, schunks)
				}
				c.Eval(fmt.Sprintf("reqlimit/%v/%d/%d/%v", x, n, len(body)/1000, ok))
				cl.Close()
			}
			// a request above the size limit within the chunk limit
			w3 := w2
			_ = w3
			// responses: the limits are the client's
			for k := 0; k < c.N(10, 30); k++ {
				n := 30000 + rr.Intn(40000)
				p := payload(rr, n)
				node2.SetValue(ua.NewDataValue(p, 0, time.Now(), 0, time.Now(), 0))
				probe := dial(w2, nop)
				if probe == nil {
					return
				}
				id, _ := probe.Send(readReq(node2.NodeID()))
				var last uint32
				_, bl, err := recvChecked(c, x, probe, 65536, id, &last)
				probe.Close()
				if err != nil {
					c.Violate("read-lost", "%v: %v", x, err)
					return
				}
				rb := uint32(8192 + rr.Intn(3000))
				rmb := bodyMax(x, rb)
				need := (bl + rmb - 1) / rmb
				var maxMsg, maxChunks uint32
				ok := true
				switch k % 5 {
				case 0:
					maxMsg = uint32(bl)
				case 1:
					maxMsg, ok = uint32(bl-1-rr.Intn(20)), false
				case 2:
					maxChunks = uint32(need)
				case 3:
					maxChunks, ok = uint32(need-1), false
				case 4:
					// exactly filled chunks
					n = (need-1)*rmb - (bl - n)
					p = payload(rr, n)
					node2.SetValue(ua.NewDataValue(p, 0, time.Now(), 0, time.Now(), 0))
					maxChunks = uint32(need - 1)
				}
				cl := dial(w2, func(q *raw.Config) { q.RecvBuf, q.MaxMsg, q.MaxChunks = rb, maxMsg, maxChunks })
				if cl == nil {
					return
				}
				id, err = cl.Send(readReq(node2.NodeID()))
				var res ua.ServiceResponse
				if err == nil {
					last = 0
					res, _, err = recvChecked(c, x, cl, rb, id, &last)
				}
				var got ua.ByteString
				if rd, is := res.(*ua.ReadResponse); is && err == nil && len(rd.Results) == 1 {
					got, _ = rd.Results[0].Value.(ua.ByteString)
				}
				if ok && got != p {
					c.Violate("response-limit-refused", "%v: a response within the client's limits (%d bytes, message limit %d, chunks %d of %d) failed: %v %T", x, bl, maxMsg, need, maxChunks, err, res)
				}
				if !ok && err == nil && res.Header().ServiceResult.IsGood() {
					c.Violate("response-limit-exceeded", "%v: a response of %d bytes was sent to a client with message limit %d and chunk limit %d (%d needed)", x, bl, maxMsg, maxChunks, need)
				}
				if !ok && err == nil {
					// the channel goes on: nothing of the refused response is left on it
					id, err = cl.Send(readReq(ua.VariableIDServerServerStatusState))
					if err == nil {
						res, _, err = recvChecked(c, x, cl, rb, id, &last)
					}
					if _, is := res.(*ua.ReadResponse); !is || err != nil {
						c.Violate("after-refusal", "%v: a request after a refused response: %T %v", x, res, err)
					}
				}
				c.Eval(fmt.Sprintf("rsplimit/%v/%d/%v/%d", x, k%5, ok, need))
				cl.Close()
			}
		}()
	}
	wg.Wait()
	// message size limit of the server, without a chunk limit
	w4 := newWorld(c, WorldOpts{Opts: []server.Option{bigCaps(), server.WithTransportLimits(65536, 100000, 0)}})
	defer w4.Srv.Close()
	node := w4.addVar(VarSpec{Name: "T01n", Value: ua.ByteString("start"), DataType: ua.DataTypeIDByteString})
	for _, x := range allModes() {
		for k := 0; k < c.N(4, 12); k++ {
			cl, err := w4.RawSession(x.p, x.m)
			if err != nil {
				c.Violate("connect", "%v: %v", x, err)
				return
			}
			cl.Conn.SetDeadline(time.Now().Add(60 * time.Second))
			over := len(raw.MustEncode(prepped(cl, writeReq(node.NodeID(), ua.ByteString("x"))))) - 1
			bl := 100000 + []int{0, 1, -1, 2 + r.Intn(200000)}[k%4]
			p := payload(r, bl-over)
			body := raw.MustEncode(prepped(cl, writeReq(node.NodeID(), p)))
			before, _ := node.Value().Value.(ua.ByteString)
			_, err = sendCut(cl, r, cl.NextReq(), body, func(l int) int { return 1000 + r.Intn(60000) }, 0)
			var res ua.ServiceResponse
			if err == nil {
				_, res, err = cl.Recv()
			}
			good := err == nil && res.Header().ServiceResult == ua.Good
			after, _ := node.Value().Value.(ua.ByteString)
			if ok := len(body) <= 100000; ok && (!good || after != p) {
				c.Violate("size-refused", "%v: a request of %d bytes with a limit of 100000 failed: %v", x, len(body), err)
			} else if !ok && (good || after != before) {
				c.Violate("size-accepted", "%v: a request of %d bytes was accepted with a limit of 100000", x, len(body))
			}
			c.Eval(fmt.Sprintf("size/%v/%d", x, k%4))
			cl.Close()
		}
	}
}

// t01ClientLimits: the client against a scripted server: its own limits as receiver, and the server's limits it was told.
func t01ClientLimits(c *Ctx, r *rand.Rand) {
	key := rsaKey("k0")
	cert := appCert("server", serverURI, key).Raw
	w := &World{C: c, ClientKey: rsaKey("k1"), ClientCert: appCert("client", clientURI, rsaKey("k1")).Raw}
	var wg sync.WaitGroup
	for _, x := range allModes() {
		x := x
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.N(10, 40); k++ {
				s, err := raw.NewServer(key, cert)
				must(err)
				sb := uint32(8192 + rr.Intn(4000)) // the server's send buffer
				rb := uint32(8192 + rr.Intn(4000)) // and receive buffer
				s.Ack = [4]uint32{rb, sb, 0, 0}
				cb := []uint32{8192, 8300, 10001, 65536}[rr.Intn(4)]
				if cb < sb {
					sb = cb
				}
				if cb < rb {
					rb = cb
				}
				var maxMsg, maxChunks uint32 = 1 << 20, 500
				smb, cmb := bodyMax(x, sb), bodyMax(x, rb)
				kind := k % 5
				const maxReqMsg, maxReqChunks = 50000, 5
				if kind == 3 {
					s.Ack[2] = maxReqMsg
				}
				if kind == 4 {
					s.Ack[3] = maxReqChunks
				}
				val := payload(rr, 20000+rr.Intn(30000))
				var mu sync.Mutex
				var gotReq []ua.ByteString
				var bad string
				over := 0
				{
					rs := &ua.ReadResponse{ResponseHeader: ua.ResponseHeader{Timestamp: time.Now()}, Results: []ua.DataValue{ua.NewDataValue(val, 0, time.Time{}, 0, time.Time{}, 0)}}
					over = len(raw.MustEncode(rs)) - len(val)
				}
				body := over + len(val)
				need := (body + smb - 1) / smb
				ok := true
				switch kind {
				case 0:
					maxMsg, ok = uint32(body), true
				case 1:
					maxMsg, ok = uint32(body-1-rr.Intn(3)), false
				case 2:
					maxChunks, ok = uint32(need-rr.Intn(2)), true
					ok = int(maxChunks) >= need
				}
				nid := ua.NewNodeIDString(1, "big")
				s.OnRecv = func(_ *raw.ServerConn, m *raw.Msg) {
					mu.Lock()
					defer mu.Unlock()
					for _, f := range m.Frames {
						if len(f) > int(s.Ack[0]) {
							bad = fmt.Sprintf("a chunk of %d bytes for a buffer of %d", len(f), s.Ack[0])
						}
					}
					if s.Ack[3] > 0 && len(m.Frames) > int(s.Ack[3]) {
						bad = fmt.Sprintf("%d chunks with a limit of %d", len(m.Frames), s.Ack[3])
					}
					if s.Ack[2] > 0 && len(m.Body) > int(s.Ack[2]) {
						bad = fmt.Sprintf("a message of %d bytes with a limit of %d", len(m.Body), s.Ack[2])
					}
				}
				seg := rand.New(rand.NewSource(rr.Int63()))
				s.OnMsg = func(sc *raw.ServerConn, m *raw.Msg, q ua.ServiceRequest) bool {
					switch q := q.(type) {
					case *ua.ReadRequest:
						if len(q.NodesToRead) == 1 && q.NodesToRead[0].NodeID == nid {
							b := raw.MustEncode(&ua.ReadResponse{ResponseHeader: raw.Header(q), Results: []ua.DataValue{ua.NewDataValue(val, 0, time.Time{}, 0, time.Time{}, 0)}})
							cc := &raw.Client{Chan: sc.Chan}
							sendCut(cc, seg, m.ReqID, b, func(int) int { return smb }, []int{0, 4000}[seg.Intn(2)])
							return true
						}
					case *ua.WriteRequest:
						v, _ := q.NodesToWrite[0].Value.Value.(ua.ByteString)
						mu.Lock()
						gotReq = append(gotReq, v)
						mu.Unlock()
						sc.Reply(m, &ua.WriteResponse{ResponseHeader: raw.Header(q), Results: []ua.StatusCode{ua.Good}})
						return true
					}
					return false
				}
				go s.Serve()
				cl, err := dialURL(w, s.URL, x.p, x.m, client.WithTransportLimits(cb, maxMsg, maxChunks))
				if err != nil {
					if kind < 3 && maxMsg < 20000 {
						s.Close()
						continue
					}
					c.Violate("client-connect", "%v buffers %d (server %d/%d) kind %d: %v", x, cb, rb, sb, kind, err)
					s.Close()
					return
				}
				if kind < 3 {
					rd, err := cl.Read(bg(), readReq(nid))
					got := ua.ByteString("")
					if err == nil && len(rd.Results) == 1 {
						got, _ = rd.Results[0].Value.(ua.ByteString)
					}
					if ok && got != val {
						c.Violate("client-limit-refused", "%v: a response of %d bytes in %d chunks within the client's limits %d/%d: %v", x, body, need, maxMsg, maxChunks, err)
					}
					if !ok && err == nil {
						c.Violate("client-limit-exceeded", "%v: a response of %d bytes in %d chunks was delivered (%v) beyond the client's limits %d/%d", x, body, need, got == val, maxMsg, maxChunks)
					}
				} else {
					wover := len(raw.MustEncode(writeReq(nid, ua.ByteString("x")))) - 1 + 40 // and room for the authentication token
					lim := maxReqMsg
					if kind == 4 {
						lim = maxReqChunks * cmb
					}
					for _, d := range []int{-50, 1 + rr.Intn(9000), -200} {
						p := payload(rr, lim+d-wover)
						if d > 0 {
							p = payload(rr, lim+d)
						}
						mu.Lock()
						gotReq = nil
						mu.Unlock()
						res, err := cl.Write(bg(), writeReq(nid, p))
						mu.Lock()
						seen := append([]ua.ByteString{}, gotReq...)
						mu.Unlock()
						if d < 0 && (err != nil || len(res.Results) != 1 || len(seen) != 1 || seen[0] != p) {
							c.Violate("client-send", "%v: a request within the server's limits (kind %d, %d below) failed: %v", x, kind, -d, err)
							break
						}
						if d > 0 && (err == nil || len(seen) > 0) {
							c.Violate("client-send-beyond", "%v: a request beyond the server's limits (kind %d) returned %v and was seen %d times", x, kind, err, len(seen))
							break
						}
					}
				}
				mu.Lock()
				if bad != "" {
					c.Violate("client-wire", "%v: the client sent %s", x, bad)
				}
				mu.Unlock()
				c.Eval(fmt.Sprintf("clilimit/%v/%d/%v/%d", x, kind, ok, need))
				cl.Abort(bg())
				s.Close()
			}
		}()
	}
	wg.Wait()
}

var _ = bytes.Equal
