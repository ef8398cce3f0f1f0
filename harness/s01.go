package main

import (
	"context"
	"crypto/rsa"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() {
	register("S01", &check{run: runS01, minEvals: 400, minDistinct: 300,
		rule:        "each request or activation attempt is decided by a model of who holds which session on which channel as whom; accepted must be exactly the attempts the model accepts, with an authenticator call recorded, and probes show that refusals had no effect",
		assumptions: []string{"RSA user and client certificates", "the server's authenticators are the recorded stand-ins"}})
}

// authLog records authenticator calls.
type authLog struct {
	mu    sync.Mutex
	calls []string
	plain bool // answer with an error that is no status code
}

func (a *authLog) add(s string) {
	a.mu.Lock()
	a.calls = append(a.calls, s)
	a.mu.Unlock()
}
func (a *authLog) take() []string {
	a.mu.Lock()
	defer a.mu.Unlock()
	c := a.calls
	a.calls = nil
	return c
}

// s01World has recording authenticators and a whoami method.
type s01World struct {
	*World
	auth   *authLog
	whoami ua.NodeID
	v      *server.VariableNode
	userC  []byte // accepted user certificate
	calls  int
	mu     sync.Mutex
}

func newS01World(c *Ctx, anonymous bool, opts ...server.Option) *s01World {
	return newS01WorldKey(c, anonymous, "", opts...)
}

func newS01WorldKey(c *Ctx, anonymous bool, key string, opts ...server.Option) *s01World {
	x := &s01World{auth: &authLog{}}
	uk := rsaKey("k2")
	x.userC = appCert("joe", "urn:user:joe", uk).Raw
	no := func(e error) error {
		if e == nil {
			return nil
		}
		x.auth.mu.Lock()
		defer x.auth.mu.Unlock()
		if x.auth.plain {
			return errors.New("no such user")
		}
		return e
	}
	o := []server.Option{
		server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, app, ep string) error {
			x.auth.add("user:" + u.UserName + ":" + u.Password)
			if p, ok := userDB[u.UserName]; ok && p == u.Password {
				return nil
			}
			return no(ua.BadUserAccessDenied)
		}),
		server.WithAuthenticateX509IdentityFunc(func(u ua.X509Identity, app, ep string) error {
			x.auth.add("x509:" + fmt.Sprint(len(u.Certificate)))
			if string(u.Certificate) == string(x.userC) {
				return nil
			}
			return no(ua.BadUserAccessDenied)
		}),
		server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify(),
		server.WithRolePermissions([]ua.RolePermissionType{
			{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: allPermissions},
			{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: allPermissions},
		}),
	}
	if anonymous {
		o = append(o, server.WithAuthenticateAnonymousIdentityFunc(func(ua.AnonymousIdentity, string, string) error {
			x.auth.add("anonymous")
			return nil
		}))
	}
	x.World = newWorld(c, WorldOpts{NoDefault: true, ServerKey: key, Opts: append(o, opts...)})
	ns := x.ensureNS()
	m := server.NewMethodNode(x.Srv, ua.NewNodeIDString(ns, "whoami"), ua.NewQualifiedName(ns, "whoami"), ua.NewLocalizedText("whoami", ""), ua.LocalizedText{}, nil, []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDServer)}}, true)
	m.SetCallMethodHandler(func(s *server.Session, q ua.CallMethodRequest) ua.CallMethodResult {
		x.mu.Lock()
		x.calls++
		x.mu.Unlock()
		return ua.CallMethodResult{OutputArguments: []ua.Variant{s01Identity(s.UserIdentity()), fmt.Sprint(s.SessionId())}}
	})
	must(x.Srv.NamespaceManager().AddNode(m))
	x.whoami = m.NodeID()
	x.v = x.addVar(VarSpec{Name: "S01.v", Value: int32(0), DataType: ua.DataTypeIDInt32})
	return x
}

// who asks the server which identity the session of this channel has.
func (x *s01World) who(r *raw.Client) (string, error) {
	res, err := r.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: x.whoami}}})
	if err != nil {
		return "", err
	}
	q := res.(*ua.CallResponse).Results[0]
	if q.StatusCode.IsBad() || len(q.OutputArguments) != 2 {
		return "", fmt.Errorf("whoami: %#x", uint32(q.StatusCode))
	}
	if q.OutputArguments[1] != ua.Variant(fmt.Sprint(r.SessionID)) {
		return "", fmt.Errorf("whoami ran in session %v instead of %v", q.OutputArguments[1], r.SessionID)
	}
	return q.OutputArguments[0].(string), nil
}

// allServices returns one request of every service that needs a session.
func (x *s01World) allServices(sub, item uint32, n int32) []ua.ServiceRequest {
	id := x.v.NodeID()
	return []ua.ServiceRequest{
		&ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: 13}}},
		&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: id, AttributeID: 13, Value: ua.DataValue{Value: n}}}},
		&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: x.whoami}}},
		&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder}}},
		&ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{"abcd"}},
		&ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.NewQualifiedName(0, "Server")}}}}}},
		&ua.RegisterNodesRequest{NodesToRegister: []ua.NodeID{id}},
		&ua.UnregisterNodesRequest{NodesToUnregister: []ua.NodeID{id}},
		&ua.HistoryReadRequest{HistoryReadDetails: ua.ReadRawModifiedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now()}, NodesToRead: []ua.HistoryReadValueID{{NodeID: id}}},
		&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 10},
		&ua.ModifySubscriptionRequest{SubscriptionID: sub, RequestedPublishingInterval: 1000 + float64(n%500)},
		&ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{sub}, PublishingEnabled: n%2 == 0},
		&ua.PublishRequest{},
		&ua.RepublishRequest{SubscriptionID: sub, RetransmitSequenceNumber: 1},
		&ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: 13}, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 1000}}}},
		&ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: item, RequestedParameters: ua.MonitoringParameters{ClientHandle: 5, SamplingInterval: 1000}}}},
		&ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: []uint32{item}},
		&ua.SetTriggeringRequest{SubscriptionID: sub, TriggeringItemID: item, LinksToAdd: []uint32{item}},
		&ua.DeleteMonitoredItemsRequest{SubscriptionID: sub, MonitoredItemIDs: []uint32{item}},
		&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}},
		&ua.CancelRequest{RequestHandle: 1},
		&ua.CloseSessionRequest{DeleteSubscriptions: true},
	}
}

func runS01(c *Ctx) {
	r := c.Rng("s01")
	s01Services(c, r)
	if c.Violated() {
		return
	}
	s01Activation(c, r)
	if c.Violated() {
		return
	}
	s01Transfer(c, r)
	if c.Violated() {
		return
	}
	s01NoAnonymous(c, r)
	if c.Violated() {
		return
	}
	s01Race(c, r)
	if c.Violated() {
		return
	}
	s01ClientSide(c, r)
}

// s01Services: every service with every kind of invalid session.
func s01Services(c *Ctx, r *rand.Rand) {
	x := newS01World(c, true)
	defer x.Srv.Close()
	for _, pm := range []struct {
		p *raw.Policy
		m int
	}{{raw.None, raw.ModeNone}, {raw.Basic256Sha256, raw.ModeSign}, {raw.Aes256, raw.ModeSignAndEncrypt}} {
		owner, err := x.RawSession(pm.p, pm.m)
		if err != nil {
			c.Inconclusive("session: %v", err)
			return
		}
		sr, err := owner.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 10})
		if err != nil {
			c.Violate("service", "create subscription: %v", err)
			return
		}
		sub := sr.(*ua.CreateSubscriptionResponse).SubscriptionID
		ir, err := owner.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: x.v.NodeID(), AttributeID: 13}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 1000}}}})
		if err != nil {
			c.Violate("service", "create item: %v", err)
			return
		}
		item := ir.(*ua.CreateMonitoredItemsResponse).Results[0].MonitoredItemID
		state := func() string {
			t := fmt.Sprint(x.v.Value().Value, x.calls, x.Srv.SubscriptionManager().Len())
			if s, ok := x.Srv.SubscriptionManager().Get(sub); ok {
				t += fmt.Sprint(len(s.Items()))
				for _, it := range s.Items() {
					t += fmt.Sprint(it.MonitoringMode(), it.ClientHandle())
				}
			}
			return t
		}
		kinds := []string{"no token", "unknown token", "other channel", "session id as token", "not activated", "refused activation", "closed"}
		if c.Thorough() {
			kinds = append(kinds, kinds...)
		}
		for _, kind := range kinds {
			n := len(x.allServices(sub, item, 0))
			att, err := x.Raw(pm.p, pm.m)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			for k := 0; k < n; k++ {
				req := x.allServices(sub, item, r.Int31())[k]
				var tok ua.NodeID
				switch kind {
				case "no token":
					tok = ua.NewNodeIDNumeric(0, 0)
				case "unknown token":
					tok = ua.NewNodeIDOpaque(0, ua.ByteString(randBytes(r, 32)))
				case "other channel":
					tok = owner.AuthToken
				case "session id as token":
					tok = owner.SessionID
				case "not activated", "refused activation", "closed":
					if _, err := att.CreateSession("s", 60000); err != nil {
						c.Violate("service", "create session: %v", err)
						return
					}
					if kind == "refused activation" {
						t, _ := att.UserNameToken("user1", "wrong", x.ServerCert, nil)
						if _, err := att.Activate(t, att.ClientSig(), ua.SignatureData{}); err == nil {
							c.Violate("accepts", "a wrong password was accepted")
							return
						}
					}
					if kind == "closed" {
						if err := att.ActivateAnonymous(); err != nil {
							c.Violate("service", "activate: %v", err)
							return
						}
						if _, err := att.Do(&ua.CloseSessionRequest{}); err != nil {
							c.Violate("service", "close: %v", err)
							return
						}
					}
					tok = att.AuthToken
				}
				req.Header().AuthenticationToken = tok
				before := state()
				res, err := att.Do(req)
				_, isFault := res.(*ua.ServiceFault)
				code, isCode := err.(ua.StatusCode)
				if err == nil || !isCode || !code.IsBad() || !isFault {
					c.Violate("unauthenticated:"+fmt.Sprintf("%T", req), "%s/%d %T with %s is answered with %T %v", pm.p.Name, pm.m, req, kind, res, err)
				}
				if _, pub := req.(*ua.PublishRequest); pub && err != nil && !isCode {
					return
				}
				if after := state(); after != before {
					c.Violate("effect", "%T with %s was refused but changed state from %s to %s", req, kind, before, after)
				}
				c.Eval(fmt.Sprintf("svc/%s/%d/%s/%T", pm.p.Name, pm.m, kind, req))
				c.Count("refused_requests", 1)
				if c.Violated() {
					return
				}
			}
			att.Close()
			if w, err := x.who(owner); err != nil || w != "anonymous" {
				c.Violate("effect", "after requests with %s the rightful session answers %q %v", kind, w, err)
				return
			}
		}
		owner.Close()
	}
}

func flip(b ua.ByteString, r *rand.Rand) ua.ByteString {
	x := []byte(b)
	if len(x) == 0 {
		return ua.ByteString("x")
	}
	y := append([]byte{}, x...)
	y[r.Intn(len(y))] ^= byte(1 << uint(r.Intn(8)))
	return ua.ByteString(y)
}

// s01Activation: valid and corrupted activations on a session that is already activated as user2.
func s01Activation(c *Ctx, r *rand.Rand) {
	x := newS01World(c, true)
	defer x.Srv.Close()
	userKey, otherKey := rsaKey("k2"), rsaKey("k3")
	otherUser := appCert("mallory", "urn:user:m", otherKey).Raw
	ec, _ := ecCert("ec", "urn:user:ec")
	type pm struct {
		p *raw.Policy
		m int
	}
	combos := []pm{{raw.None, raw.ModeNone}}
	for _, p := range raw.Policies {
		combos = append(combos, pm{p, raw.ModeSign}, pm{p, raw.ModeSignAndEncrypt})
	}
	rounds := c.N(1, 6)
	for round := 0; round < rounds; round++ {
		for _, cb := range combos {
			s, err := x.Raw(cb.p, cb.m)
			if err != nil {
				c.Inconclusive("dial %s: %v", cb.p.Name, err)
				return
			}
			if _, err := s.CreateSession("act", 60000); err != nil {
				c.Violate("service", "create session on %s: %v", cb.p.Name, err)
				return
			}
			var oldToken ua.UserNameIdentityToken
			var oldSig ua.SignatureData
			oldNonce := append([]byte{}, s.ServerNonce...)
			login := func(u, p string) error {
				t, err := s.UserNameToken(u, p, x.ServerCert, nil)
				if err != nil {
					return err
				}
				oldToken, oldSig, oldNonce = t, s.ClientSig(), append([]byte{}, s.ServerNonce...)
				_, err = s.Activate(t, oldSig, ua.SignatureData{})
				return err
			}
			if err := login("user2", "password2"); err != nil {
				c.Violate("refuses", "%s/%d: user2 with the right password: %v", cb.p.Name, cb.m, err)
				return
			}
			current := "user:user2"
			_, upol := s.UserPolicy(ua.UserTokenTypeUserName)
			xp, xpol := s.UserPolicy(ua.UserTokenTypeCertificate)
			usig := func(k *rsa.PrivateKey, nonce []byte) ua.SignatureData {
				if xpol == nil || xpol == raw.None {
					return ua.SignatureData{}
				}
				return ua.SignatureData{Algorithm: xpol.SigURI, Signature: ua.ByteString(xpol.Sign(k, append(append([]byte{}, x.ServerCert...), nonce...)))}
			}
			type attempt struct {
				name string
				ok   bool
				as   string // identity afterwards when accepted
				run  func() (any, ua.SignatureData, ua.SignatureData)
			}
			un := func(u, p string) any {
				t, err := s.UserNameToken(u, p, x.ServerCert, nil)
				must(err)
				return t
			}
			none := ua.SignatureData{}
			secured := cb.p != raw.None
			encrypted := upol != nil && upol != raw.None
			atts := []attempt{
				{"right password", true, "user:user1", func() (any, ua.SignatureData, ua.SignatureData) { return un("user1", "password1"), s.ClientSig(), none }},
				{"anonymous", true, "anonymous", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.AnonymousIdentityToken{PolicyID: s.PolicyID(ua.UserTokenTypeAnonymous)}, s.ClientSig(), none
				}},
				{"user certificate", true, "x509", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.X509IdentityToken{PolicyID: xp.PolicyID, CertificateData: ua.ByteString(x.userC)}, s.ClientSig(), usig(userKey, s.ServerNonce)
				}},
				{"wrong password", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return un("user1", "password2"), s.ClientSig(), none }},
				{"password prefix", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return un("user1", "password"), s.ClientSig(), none }},
				{"password with a suffix", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return un("user1", "password1\x00"), s.ClientSig(), none
				}},
				{"empty password", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return un("user1", ""), s.ClientSig(), none }},
				{"unknown user", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return un("nobody", "password1"), s.ClientSig(), none
				}},
				{"empty user", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return un("", "password1"), s.ClientSig(), none }},
				{"unknown policy id", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					t := un("user1", "password1").(ua.UserNameIdentityToken)
					t.PolicyID = "nope"
					return t, s.ClientSig(), none
				}},
				{"anonymous with user policy id", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.AnonymousIdentityToken{PolicyID: s.PolicyID(ua.UserTokenTypeUserName) + "?"}, s.ClientSig(), none
				}},
				{"no token", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return nil, s.ClientSig(), none }},
				{"issued token", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.IssuedIdentityToken{PolicyID: xp.PolicyID, TokenData: "joe"}, s.ClientSig(), none
				}},
				{"something else as token", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.Argument{Name: "x"}, s.ClientSig(), none
				}},
				{"user certificate of a stranger", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.X509IdentityToken{PolicyID: xp.PolicyID, CertificateData: ua.ByteString(otherUser)}, s.ClientSig(), usig(otherKey, s.ServerNonce)
				}},
				{"garbage user certificate", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.X509IdentityToken{PolicyID: xp.PolicyID, CertificateData: ua.ByteString(randBytes(r, 40))}, s.ClientSig(), none
				}},
				{"elliptic-curve user certificate", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
					return ua.X509IdentityToken{PolicyID: xp.PolicyID, CertificateData: ua.ByteString(ec.Raw)}, s.ClientSig(), none
				}},
			}
			if encrypted {
				atts = append(atts,
					attempt{"password in clear", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						t := un("user1", "password1").(ua.UserNameIdentityToken)
						t.Password, t.EncryptionAlgorithm = "password1", ""
						return t, s.ClientSig(), none
					}},
					attempt{"password with other algorithm", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						t := un("user1", "password1").(ua.UserNameIdentityToken)
						t.EncryptionAlgorithm = "http://example.org/none"
						return t, s.ClientSig(), none
					}},
					attempt{"corrupted password", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						t := un("user1", "password1").(ua.UserNameIdentityToken)
						t.Password = flip(t.Password, r)
						return t, s.ClientSig(), none
					}},
					attempt{"truncated password", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						t := un("user1", "password1").(ua.UserNameIdentityToken)
						t.Password = t.Password[:r.Intn(len(t.Password))]
						return t, s.ClientSig(), none
					}},
					attempt{"replayed password", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return oldToken, s.ClientSig(), none }},
					attempt{"password with another nonce", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						t, err := s.UserNameToken("user1", "password1", x.ServerCert, randBytes(r, 32))
						must(err)
						return t, s.ClientSig(), none
					}},
				)
			}
			if xpol != nil && xpol != raw.None {
				cert := func() any {
					return ua.X509IdentityToken{PolicyID: xp.PolicyID, CertificateData: ua.ByteString(x.userC)}
				}
				atts = append(atts,
					attempt{"user certificate signed by another key", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						return cert(), s.ClientSig(), usig(otherKey, s.ServerNonce)
					}},
					attempt{"user certificate without signature", false, "", func() (any, ua.SignatureData, ua.SignatureData) { return cert(), s.ClientSig(), none }},
					attempt{"user certificate with replayed signature", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						return cert(), s.ClientSig(), usig(userKey, oldNonce)
					}},
					attempt{"user certificate with corrupted signature", false, "", func() (any, ua.SignatureData, ua.SignatureData) {
						g := usig(userKey, s.ServerNonce)
						g.Signature = flip(g.Signature, r)
						return cert(), s.ClientSig(), g
					}},
				)
			}
			if secured {
				bad := func(name string, f func() ua.SignatureData) attempt {
					return attempt{name, false, "", func() (any, ua.SignatureData, ua.SignatureData) { return un("user1", "password1"), f(), none }}
				}
				atts = append(atts,
					bad("no client signature", func() ua.SignatureData { return none }),
					bad("corrupted client signature", func() ua.SignatureData { g := s.ClientSig(); g.Signature = flip(g.Signature, r); return g }),
					bad("truncated client signature", func() ua.SignatureData { g := s.ClientSig(); g.Signature = g.Signature[:100]; return g }),
					bad("client signature by another key", func() ua.SignatureData {
						return ua.SignatureData{Algorithm: cb.p.SigURI, Signature: ua.ByteString(cb.p.Sign(otherKey, append(append([]byte{}, x.ServerCert...), s.ServerNonce...)))}
					}),
					bad("replayed client signature", func() ua.SignatureData { return oldSig }),
					bad("client signature over the client certificate", func() ua.SignatureData {
						return ua.SignatureData{Algorithm: cb.p.SigURI, Signature: ua.ByteString(cb.p.Sign(x.ClientKey, append(append([]byte{}, x.ClientCert...), s.ServerNonce...)))}
					}),
				)
			}
			// refusals by an authenticator with a plain error
			r.Shuffle(len(atts), func(i, j int) { atts[i], atts[j] = atts[j], atts[i] })
			for i, a := range atts {
				x.auth.take()
				x.auth.mu.Lock()
				x.auth.plain = i%2 == 1
				x.auth.mu.Unlock()
				tok, csig, us := a.run()
				nonceBefore := string(s.ServerNonce)
				if a.ok {
					if t, isU := tok.(ua.UserNameIdentityToken); isU {
						oldToken = t
					}
					oldSig, oldNonce = csig, []byte(nonceBefore)
				}
				_, err := s.Activate(tok, csig, us)
				calls := x.auth.take()
				label := fmt.Sprintf("%s/%d %s", cb.p.Name, cb.m, a.name)
				c.Eval("act/" + label)
				if _, isCode := err.(ua.StatusCode); err != nil && !isCode {
					c.Violate("channel", "activation with %s ended the channel: %v", label, err)
					break
				}
				if (err == nil) != a.ok {
					c.Violate("activation", "activation with %s: %v, expected success %v", label, err, a.ok)
					break
				}
				if err == nil {
					c.Count("activations_accepted", 1)
					current = a.as
					if len(calls) != 1 {
						c.Violate("authenticator", "activation with %s succeeded after authenticator calls %v", label, calls)
					}
					if string(s.ServerNonce) == nonceBefore {
						c.Violate("nonce", "the server nonce stays the same after activation with %s", label)
					}
				} else {
					c.Count("activations_refused", 1)
				}
				if i%3 == 0 || !a.ok {
					w, err := x.who(s)
					if err != nil || w != current {
						c.Violate("identity", "after activation with %s (accepted: %v) the session runs as %q (%v), expected %q", label, a.ok, w, err, current)
						break
					}
				}
			}
			s.Close()
			if c.Violated() {
				return
			}
		}
	}
}

// s01Transfer: activation from other channels.
func s01Transfer(c *Ctx, r *rand.Rand) {
	x := newS01WorldKey(c, true, "kshort") // a key whose private exponent has a leading zero byte
	defer x.Srv.Close()
	otherCert := appCert("client2", "urn:verif:client2", rsaKey("k3")).Raw
	for _, p := range append([]*raw.Policy{raw.None}, raw.Policies...) {
		mode := raw.ModeSignAndEncrypt
		if p == raw.None {
			mode = raw.ModeNone
		}
		a, err := x.RawUser(p, mode, "user1", "password1")
		if err != nil {
			c.Violate("refuses", "user1 on %s: %v", p.Name, err)
			return
		}
		take := func(o *raw.Client) {
			o.AuthToken, o.SessionID, o.ServerNonce, o.Session = a.AuthToken, a.SessionID, a.ServerNonce, a.Session
		}
		check := func(who *raw.Client, want string, when string) bool {
			w, err := x.who(who)
			if want == "" {
				if err == nil {
					c.Violate("channel", "%s: %s: the session is usable as %s", p.Name, when, w)
					return false
				}
				return true
			}
			if err != nil || w != want {
				c.Violate("channel", "%s: %s: session runs as %q (%v), expected %q", p.Name, when, w, err, want)
				return false
			}
			return true
		}
		// a failed attempt from a second channel of the same client
		b, err := x.Raw(p, mode)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		take(b)
		t, _ := b.UserNameToken("user1", "bad", x.ServerCert, nil)
		if _, err := b.Activate(t, b.ClientSig(), ua.SignatureData{}); err == nil {
			c.Violate("activation", "wrong password accepted on transfer")
			return
		}
		if !check(a, "user:user1", "after a refused transfer, old channel") || !check(b, "", "after a refused transfer, new channel") {
			return
		}
		c.Eval("transfer/refused/" + p.Name)
		// a different client
		if p != raw.None {
			d, err := x.Raw(p, mode, func(q *raw.Config) { q.Cert, q.Key = otherCert, rsaKey("k3") })
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			take(d)
			for _, u := range [][2]string{{"user1", "password1"}, {"user2", "password2"}} {
				t, _ := d.UserNameToken(u[0], u[1], x.ServerCert, nil)
				if _, err := d.Activate(t, d.ClientSig(), ua.SignatureData{}); err == nil {
					c.Violate("client", "%s: a session was taken over by a client with another certificate", p.Name)
					return
				}
				if !check(a, "user:user1", "after a takeover by another client, old channel") || !check(d, "", "after a takeover by another client, its channel") {
					return
				}
				c.Eval("transfer/other/" + p.Name + u[0])
			}
			d.Close()
			// without security
			e, err := x.Raw(raw.None, raw.ModeNone)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			take(e)
			at := ua.AnonymousIdentityToken{PolicyID: e.PolicyID(ua.UserTokenTypeAnonymous)}
			if _, err := e.Activate(at, ua.SignatureData{}, ua.SignatureData{}); err == nil {
				c.Violate("client", "a session created on %s was taken over on a channel without security", p.Name)
				return
			}
			if !check(a, "user:user1", "after a takeover without security") {
				return
			}
			c.Eval("transfer/none/" + p.Name)
			e.Close()
		}
		// the rightful client moves
		t, _ = b.UserNameToken("user1", "password1", x.ServerCert, nil)
		if _, err := b.Activate(t, b.ClientSig(), ua.SignatureData{}); err != nil {
			c.Violate("activation", "%s: transfer by the same client and user: %v", p.Name, err)
			return
		}
		if !check(b, "user:user1", "after the transfer, new channel") || !check(a, "", "after the transfer, old channel") {
			return
		}
		c.Eval("transfer/ok/" + p.Name)
		a.Close()
		b.Close()
	}
}

// s01NoAnonymous: token types without authenticator are refused on every endpoint.
func s01NoAnonymous(c *Ctx, r *rand.Rand) {
	x := newS01World(c, false)
	defer x.Srv.Close()
	for _, p := range []*raw.Policy{raw.None, raw.Basic256Sha256, raw.Aes256} {
		mode := raw.ModeSign
		if p == raw.None {
			mode = raw.ModeNone
		}
		s, err := x.Raw(p, mode)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		if _, err := s.CreateSession("n", 60000); err != nil {
			c.Violate("service", "create: %v", err)
			return
		}
		if id := s.PolicyID(ua.UserTokenTypeAnonymous); id != "" {
			c.Violate("offered", "anonymous policy %q is offered without an authenticator", id)
		}
		for _, id := range []string{"", s.PolicyID(ua.UserTokenTypeUserName), s.PolicyID(ua.UserTokenTypeCertificate), "Anonymous", "0", "1"} {
			if _, err := s.Activate(ua.AnonymousIdentityToken{PolicyID: id}, s.ClientSig(), ua.SignatureData{}); err == nil {
				c.Violate("activation", "anonymous activation accepted without an authenticator (policy id %q)", id)
				return
			}
			c.Eval("noanon/" + p.Name + id)
		}
		if w, err := x.who(s); err == nil {
			c.Violate("identity", "session runs as %s", w)
		}
		s.Close()
	}
}

// s01Race: users activate one session concurrently from two channels while both use it.
func s01Race(c *Ctx, r *rand.Rand) {
	x := newS01World(c, true)
	defer x.Srv.Close()
	for round := 0; round < c.N(10, 120) && !c.Violated(); round++ {
		a, err := x.RawUser(raw.None, raw.ModeNone, "user1", "password1")
		if err != nil {
			c.Violate("refuses", "user1: %v", err)
			return
		}
		b, err := x.Raw(raw.None, raw.ModeNone)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		b.AuthToken, b.SessionID, b.ServerNonce, b.Session = a.AuthToken, a.SessionID, a.ServerNonce, a.Session
		var wg sync.WaitGroup
		for k, q := range []*raw.Client{a, b} {
			wg.Add(1)
			go func(k int, q *raw.Client, rr *rand.Rand) {
				defer wg.Done()
				for n := 0; n < 30; n++ {
					if rr.Intn(3) == 0 {
						// wrong password: never any effect
						t, _ := q.UserNameToken("root", "guess", x.ServerCert, nil)
						if _, err := q.Activate(t, ua.SignatureData{}, ua.SignatureData{}); err == nil {
							c.Violate("activation", "wrong password accepted")
						}
						continue
					}
					w, err := x.who(q)
					if k == 0 && (err != nil || w != "user:user1") {
						c.Violate("identity", "while activations are refused the session runs as %q (%v)", w, err)
						return
					}
					if k == 1 && err == nil {
						c.Violate("channel", "a channel that never activated the session uses it as %q", w)
						return
					}
					c.Eval(fmt.Sprintf("race/%d/%d/%d", round, k, n))
				}
			}(k, q, rand.New(rand.NewSource(r.Int63())))
		}
		wg.Wait()
		a.Close()
		b.Close()
	}
}

var _ = context.Background

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func s01Identity(id any) string {
	switch x := id.(type) {
	case ua.UserNameIdentity:
		return "user:" + x.UserName
	case ua.AnonymousIdentity:
		return "anonymous"
	case ua.X509Identity:
		return "x509"
	}
	return fmt.Sprintf("%T", id)
}
