package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"verifharness/raw"

	"github.com/awcullen/opcua/ua"
)

// s01ClientSide: the client must refuse a server that does not prove possession of its certificate's key in CreateSession.
func s01ClientSide(c *Ctx, r *rand.Rand) {
	w := &World{C: c, ClientKey: rsaKey("k1")}
	w.ClientCert = appCert("client", clientURI, w.ClientKey).Raw
	key, other := rsaKey("k0"), rsaKey("k2")
	cert := appCert("server", serverURI, key).Raw
	otherCert := appCert("server", serverURI, other).Raw
	twin := appCert("server2", serverURI, key).Raw // same key, other certificate
	join := func(a, b ua.ByteString) []byte { return bytes.Join([][]byte{[]byte(a), []byte(b)}, nil) }
	type cse struct {
		name string
		ok   bool
		set  func(s *raw.Server)
	}
	sign := func(f func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData) func(*raw.Server) {
		return func(s *raw.Server) { s.SignSession = f }
	}
	var stale ua.SignatureData
	cases := []cse{
		{"valid", true, func(s *raw.Server) {
			s.SignSession = func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
				stale = sc.Sign(key, join(q.ClientCertificate, q.ClientNonce))
				return stale
			}
		}},
		{"signature of an earlier session", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData { return stale })},
		{"no signature", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData { return ua.SignatureData{} })},
		{"empty signature", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			return ua.SignatureData{Algorithm: sc.Policy.SigURI, Signature: ""}
		})},
		{"other key", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			return sc.Sign(other, join(q.ClientCertificate, q.ClientNonce))
		})},
		{"nonce not signed", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			return sc.Sign(key, []byte(q.ClientCertificate))
		})},
		{"certificate not signed", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			return sc.Sign(key, []byte(q.ClientNonce))
		})},
		{"other nonce", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			return sc.Sign(key, join(q.ClientCertificate, ua.ByteString(make([]byte, 32))))
		})},
		{"swapped", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			return sc.Sign(key, join(q.ClientNonce, q.ClientCertificate))
		})},
		{"flipped bit", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			sd := sc.Sign(key, join(q.ClientCertificate, q.ClientNonce))
			sd.Signature = flip(sd.Signature, r)
			return sd
		})},
		{"truncated", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			sd := sc.Sign(key, join(q.ClientCertificate, q.ClientNonce))
			sd.Signature = sd.Signature[:len(sd.Signature)-1]
			return sd
		})},
		{"signature of another policy", false, sign(func(sc *raw.ServerConn, q *ua.CreateSessionRequest) ua.SignatureData {
			for _, p := range raw.Policies {
				// a policy with another digest or padding
				if sg := p.Sign(key, join(q.ClientCertificate, q.ClientNonce)); sc.Policy.Verify(&key.PublicKey, join(q.ClientCertificate, q.ClientNonce), sg) != nil {
					return ua.SignatureData{Algorithm: sc.Policy.SigURI, Signature: ua.ByteString(sg)}
				}
			}
			return ua.SignatureData{}
		})},
		{"another certificate in the session", false, func(s *raw.Server) { s.SessionCert = otherCert }},
		{"another certificate with the same key in the session", false, func(s *raw.Server) { s.SessionCert = twin }},
		{"no certificate in the session", false, func(s *raw.Server) { s.SessionCert = []byte{} }},
		{"another certificate in the endpoint", false, func(s *raw.Server) { s.EndpointCert = otherCert }},
		{"another certificate in endpoint and session", false, func(s *raw.Server) { s.EndpointCert, s.SessionCert = otherCert, otherCert }},
	}
	n := 0
	for _, p := range raw.Policies {
		for _, mode := range []int{raw.ModeSign, raw.ModeSignAndEncrypt} {
			for _, cs := range cases {
				if !c.Thorough() && n > len(cases) && cs.name != "valid" && cs.name != "signature of an earlier session" && r.Intn(2) == 0 {
					continue
				}
				n++
				s, err := raw.NewServer(key, cert)
				must(err)
				cs.set(s)
				go s.Serve()
				id := fmt.Sprintf("%s/%d/%s", p.Name, mode, cs.name)
				cl, err := dialURL(w, s.URL, p, mode)
				if cs.ok && err != nil {
					c.Violate("client-refuses-valid", "%s: a server with a valid signature was refused: %v", id, err)
				}
				if !cs.ok && err == nil {
					c.Violate("client-accepts:"+cs.name, "%s: the client opened a session with a server that did not prove possession of its key (%s)", id, cs.name)
				}
				if cl != nil {
					cl.Abort(bg())
				}
				s.Close()
				c.Eval("client:" + id)
				c.Count("scripted servers dialed", 1)
			}
		}
	}
}
