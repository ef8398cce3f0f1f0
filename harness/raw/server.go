package raw

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/ua"
)

// Server is a scripted server for driving the client under test. It shares no code with /repo's channel implementation.
type Server struct {
	L    net.Listener
	URL  string
	Key  *rsa.PrivateKey
	Cert []byte // certificate used on channels
	// EndpointCert is the certificate in the endpoint descriptions, SessionCert that in CreateSession responses (default Cert).
	EndpointCert, SessionCert []byte
	Lifetime                  uint32 // revised token lifetime, 0: as requested
	Ack                       [4]uint32
	// OnHello sees the HEL frame; return true when it was answered.
	OnHello func(*ServerConn, []byte) bool
	// OnOpen may alter an OPN response; return true when it was answered.
	OnOpen func(*ServerConn, *Opened, *ua.OpenSecureChannelRequest, *ua.OpenSecureChannelResponse) bool
	// OnMsg sees every decoded request; return true when it was answered.
	OnMsg func(*ServerConn, *Msg, ua.ServiceRequest) bool
	// SignSession computes the server signature of a CreateSession response.
	SignSession func(*ServerConn, *ua.CreateSessionRequest) ua.SignatureData
	// OnRecv sees every received message before it is decoded.
	OnRecv func(*ServerConn, *Msg)

	mu    sync.Mutex
	conns []*ServerConn
	next  uint32
}

// ServerConn is one connection.
type ServerConn struct {
	*Chan
	S       *Server
	Created int // sessions created
	Opens   int
}

// NewServer listens on a loopback port.
func NewServer(key *rsa.PrivateKey, cert []byte) (*Server, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	return &Server{L: l, URL: fmt.Sprintf("opc.tcp://127.0.0.1:%d", l.Addr().(*net.TCPAddr).Port), Key: key, Cert: cert, Ack: [4]uint32{65536, 65536, 0, 0}}, nil
}

// Serve accepts connections until Close.
func (s *Server) Serve() {
	for {
		c, err := s.L.Accept()
		if err != nil {
			return
		}
		sc := &ServerConn{Chan: &Chan{Conn: c, IsServer: true, LocalKey: s.Key, LocalCert: s.Cert}, S: s}
		s.mu.Lock()
		s.conns = append(s.conns, sc)
		s.mu.Unlock()
		go func() { defer c.Close(); sc.run() }()
	}
}

// Conns returns the connections so far.
func (s *Server) Conns() []*ServerConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*ServerConn{}, s.conns...)
}

// Close stops listening and closes all connections.
func (s *Server) Close() {
	s.L.Close()
	for _, c := range s.Conns() {
		c.Conn.Close()
	}
}

func (c *ServerConn) run() {
	f, err := ReadFrame(c.Conn)
	if err != nil || string(f[:4]) != "HELF" || len(f) < 28 {
		return
	}
	if c.S.OnHello == nil || !c.S.OnHello(c, f) {
		c.AckHello(f)
	}
	for {
		m, err := c.RecvMsg()
		if err != nil {
			return
		}
		if c.S.OnRecv != nil {
			c.S.OnRecv(c, m)
		}
		switch m.Type {
		case "OPN":
			o, err := c.OpenAsym(m.Frames[len(m.Frames)-1])
			if err != nil {
				return
			}
			if c.opn(o) != nil {
				return
			}
		case "CLO":
			return
		default:
			v, err := Decode(m.Body)
			if err != nil {
				return
			}
			req, ok := v.(ua.ServiceRequest)
			if !ok {
				return
			}
			if c.S.OnMsg != nil && c.S.OnMsg(c, m, req) {
				continue
			}
			if c.Default(m, req) != nil {
				return
			}
		}
	}
}

// AckHello answers a HEL.
func (c *ServerConn) AckHello(f []byte) {
	g := func(i int) uint32 { return binary.LittleEndian.Uint32(f[8+4*i:]) }
	a := c.S.Ack
	if g(1) < a[1] {
		a[1] = g(1)
	}
	if g(2) < a[0] {
		a[0] = g(2)
	}
	c.RecvBuf, c.SendBuf = a[0], a[1]
	c.Conn.Write(Frame("ACKF", U32(nil, 0, a[0], a[1], a[2], a[3])))
}

func (c *ServerConn) opn(o *Opened) error {
	v, err := Decode(o.Body)
	if err != nil {
		return err
	}
	req, ok := v.(*ua.OpenSecureChannelRequest)
	if !ok {
		return fmt.Errorf("unexpected %T", v)
	}
	c.Opens++
	c.Mode = int(req.SecurityMode)
	if c.ChannelID == 0 {
		c.ChannelID = 1000 + atomic.AddUint32(&c.S.next, 1)
	}
	token := 5000 + atomic.AddUint32(&c.S.next, 1)
	life := req.RequestedLifetime
	if c.S.Lifetime != 0 {
		life = c.S.Lifetime
	}
	nonce := c.NewNonce()
	res := &ua.OpenSecureChannelResponse{ResponseHeader: ua.ResponseHeader{Timestamp: time.Now(), RequestHandle: req.RequestHandle},
		SecurityToken: ua.ChannelSecurityToken{ChannelID: c.ChannelID, TokenID: token, CreatedAt: time.Now(), RevisedLifetime: life}, ServerNonce: ua.ByteString(nonce)}
	if c.S.OnOpen != nil && c.S.OnOpen(c, o, req, res) {
		return nil
	}
	return c.AnswerOpen(o, req, res)
}

// AnswerOpen sends an OPN response and installs the keys.
func (c *ServerConn) AnswerOpen(o *Opened, req *ua.OpenSecureChannelRequest, res *ua.OpenSecureChannelResponse) error {
	b := MustEncode(res)
	c.wmu.Lock()
	defer c.wmu.Unlock()
	f, err := c.SealAsym(c.NextSeq(), o.ReqID, b)
	if err != nil {
		return err
	}
	// the token is used for sending once the client has used it
	c.pendingToken = res.SecurityToken.TokenID
	if c.TokenID == 0 {
		c.TokenID = c.pendingToken
	}
	c.SetKeys(c.pendingToken, []byte(res.ServerNonce), []byte(req.ClientNonce))
	_, err = c.Conn.Write(f)
	return err
}

// Endpoints lists what the server offers.
func (s *Server) Endpoints() []ua.EndpointDescription {
	cert := s.EndpointCert
	if cert == nil {
		cert = s.Cert
	}
	mk := func(p *Policy, mode int, lvl byte) ua.EndpointDescription {
		return ua.EndpointDescription{EndpointURL: s.URL, Server: ua.ApplicationDescription{ApplicationURI: "urn:raw:server", ApplicationName: ua.NewLocalizedText("raw", "en"), DiscoveryURLs: []string{s.URL}},
			ServerCertificate: ua.ByteString(cert), SecurityMode: ua.MessageSecurityMode(mode), SecurityPolicyURI: p.URI, TransportProfileURI: ua.TransportProfileURIUaTcpTransport, SecurityLevel: lvl,
			UserIdentityTokens: []ua.UserTokenPolicy{{PolicyID: "anon", TokenType: ua.UserTokenTypeAnonymous}, {PolicyID: "user", TokenType: ua.UserTokenTypeUserName, SecurityPolicyURI: Policies[2].URI}}}
	}
	es := []ua.EndpointDescription{mk(None, ModeNone, 0)}
	for i, p := range Policies {
		es = append(es, mk(p, ModeSign, byte(2*i+1)), mk(p, ModeSignAndEncrypt, byte(2*i+2)))
	}
	return es
}

// Header makes the response header for a request.
func Header(req ua.ServiceRequest) ua.ResponseHeader {
	return ua.ResponseHeader{Timestamp: time.Now(), RequestHandle: req.Header().RequestHandle}
}

// Reply sends a response to a request message.
func (c *ServerConn) Reply(m *Msg, res any) error {
	b, err := Encode(res)
	if err != nil {
		return err
	}
	return c.SendMsg("MSG", m.ReqID, b)
}

// Sign is the valid server signature for a CreateSession request.
func (c *ServerConn) Sign(key *rsa.PrivateKey, data []byte) ua.SignatureData {
	if c.Policy == None {
		return ua.SignatureData{}
	}
	return ua.SignatureData{Algorithm: c.Policy.SigURI, Signature: ua.ByteString(c.Policy.Sign(key, data))}
}

// Default answers what a plain server answers.
func (c *ServerConn) Default(m *Msg, req ua.ServiceRequest) error {
	h := Header(req)
	switch q := req.(type) {
	case *ua.GetEndpointsRequest:
		return c.Reply(m, &ua.GetEndpointsResponse{ResponseHeader: h, Endpoints: c.S.Endpoints()})
	case *ua.CreateSessionRequest:
		c.Created++
		nonce := make([]byte, 32)
		rand.Read(nonce)
		id := atomic.AddUint32(&c.S.next, 1)
		res := &ua.CreateSessionResponse{ResponseHeader: h, SessionID: ua.NewNodeIDNumeric(1, id), AuthenticationToken: ua.NewNodeIDOpaque(0, ua.ByteString(fmt.Sprintf("tok%d", id))), RevisedSessionTimeout: q.RequestedSessionTimeout,
			ServerNonce: ua.ByteString(nonce), ServerEndpoints: c.S.Endpoints(), MaxRequestMessageSize: c.S.Ack[2]}
		cert := c.S.SessionCert
		if cert == nil {
			cert = c.S.Cert
		}
		res.ServerCertificate = ua.ByteString(cert)
		if c.S.SignSession != nil {
			res.ServerSignature = c.S.SignSession(c, q)
		} else {
			res.ServerSignature = c.Sign(c.LocalKey, bytes.Join([][]byte{[]byte(q.ClientCertificate), []byte(q.ClientNonce)}, nil))
		}
		return c.Reply(m, res)
	case *ua.ActivateSessionRequest:
		nonce := make([]byte, 32)
		rand.Read(nonce)
		return c.Reply(m, &ua.ActivateSessionResponse{ResponseHeader: h, ServerNonce: ua.ByteString(nonce)})
	case *ua.ReadRequest:
		res := &ua.ReadResponse{ResponseHeader: h}
		for _, n := range q.NodesToRead {
			switch n.NodeID {
			case ua.VariableIDServerNamespaceArray:
				res.Results = append(res.Results, ua.NewDataValue([]string{"http://opcfoundation.org/UA/"}, 0, time.Time{}, 0, time.Now(), 0))
			case ua.VariableIDServerServerArray:
				res.Results = append(res.Results, ua.NewDataValue([]string{"urn:raw:server"}, 0, time.Time{}, 0, time.Now(), 0))
			default:
				res.Results = append(res.Results, ua.NewDataValue(fmt.Sprint(n.NodeID), 0, time.Time{}, 0, time.Now(), 0))
			}
		}
		return c.Reply(m, res)
	case *ua.CloseSessionRequest:
		return c.Reply(m, &ua.CloseSessionResponse{ResponseHeader: h})
	}
	h.ServiceResult = ua.BadServiceUnsupported
	return c.Reply(m, &ua.ServiceFault{ResponseHeader: h})
}
