package raw

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"net"
	"net/url"
	"time"

	"github.com/awcullen/opcua/ua"
)

// Client is a raw client: one channel and optionally one session, one request at a time unless Send/Recv are used.
type Client struct {
	*Chan
	URL         string
	AuthToken   ua.NodeID
	SessionID   ua.NodeID
	ServerNonce []byte
	handle      uint32
	Timeout     time.Duration
	Session     *ua.CreateSessionResponse
}

// Config of a raw client.
type Config struct {
	URL                                 string
	Policy                              *Policy
	Mode                                int
	Key                                 *rsa.PrivateKey
	Cert                                []byte
	ServerCert                          []byte
	RecvBuf, SendBuf, MaxMsg, MaxChunks uint32
	Lifetime                            uint32
	Timeout                             time.Duration
}

// DialTCP connects without a handshake.
func DialTCP(u string, timeout time.Duration) (net.Conn, error) {
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	return net.DialTimeout("tcp", p.Host, timeout)
}

// Dial opens a secure channel.
func Dial(cfg Config) (*Client, error) {
	if cfg.Policy == nil {
		cfg.Policy = None
		cfg.Mode = ModeNone
	}
	if cfg.Timeout == 0 {
		cfg.Timeout = 60 * time.Second
	}
	if cfg.RecvBuf == 0 {
		cfg.RecvBuf = 65536
	}
	if cfg.SendBuf == 0 {
		cfg.SendBuf = 65536
	}
	if cfg.Lifetime == 0 {
		cfg.Lifetime = 3600000
	}
	conn, err := DialTCP(cfg.URL, cfg.Timeout)
	if err != nil {
		return nil, err
	}
	c := &Client{Chan: &Chan{Conn: conn, Policy: cfg.Policy, Mode: cfg.Mode, LocalKey: cfg.Key, LocalCert: cfg.Cert, RemoteCert: cfg.ServerCert}, URL: cfg.URL, Timeout: cfg.Timeout}
	conn.SetDeadline(time.Now().Add(cfg.Timeout))
	if err := c.Hello(cfg.URL, cfg.RecvBuf, cfg.SendBuf, cfg.MaxMsg, cfg.MaxChunks); err != nil {
		conn.Close()
		return nil, err
	}
	if _, err := c.Open(false, cfg.Lifetime); err != nil {
		conn.Close()
		return nil, err
	}
	conn.SetDeadline(time.Time{})
	return c, nil
}

// Prep fills in the request header.
func (c *Client) Prep(req ua.ServiceRequest) {
	h := req.Header()
	c.handle++
	h.Timestamp = time.Now()
	if h.RequestHandle == 0 {
		h.RequestHandle = c.handle
	}
	if h.AuthenticationToken == nil {
		h.AuthenticationToken = c.AuthToken
	}
	if h.TimeoutHint == 0 {
		h.TimeoutHint = 60000
	}
}

// Send sends a request and returns its request id.
func (c *Client) Send(req ua.ServiceRequest) (uint32, error) {
	c.Prep(req)
	b, err := Encode(req)
	if err != nil {
		return 0, err
	}
	id := c.NextReq()
	return id, c.SendMsg("MSG", id, b)
}

// Recv reads a response.
func (c *Client) Recv() (uint32, ua.ServiceResponse, error) {
	m, err := c.RecvMsg()
	if err != nil {
		return 0, nil, err
	}
	if m.Type == "OPN" {
		return 0, nil, fmt.Errorf("unexpected OPN")
	}
	v, err := Decode(m.Body)
	if err != nil {
		return m.ReqID, nil, err
	}
	r, ok := v.(ua.ServiceResponse)
	if !ok {
		return m.ReqID, nil, fmt.Errorf("not a response: %T", v)
	}
	return m.ReqID, r, nil
}

// Do sends a request and waits for its response. A bad service result is returned as error with the response.
func (c *Client) Do(req ua.ServiceRequest) (ua.ServiceResponse, error) {
	c.Conn.SetDeadline(time.Now().Add(c.Timeout))
	defer c.Conn.SetDeadline(time.Time{})
	id, err := c.Send(req)
	if err != nil {
		return nil, err
	}
	for {
		rid, res, err := c.Recv()
		if err != nil {
			return nil, err
		}
		if rid != id {
			return res, fmt.Errorf("response id %d, want %d", rid, id)
		}
		if h := res.Header(); h.ServiceResult != ua.Good {
			return res, h.ServiceResult
		}
		return res, nil
	}
}

// CreateSession creates a session (not activated).
func (c *Client) CreateSession(name string, timeout float64) (*ua.CreateSessionResponse, error) {
	nonce := make([]byte, 32)
	rand.Read(nonce)
	req := &ua.CreateSessionRequest{
		ClientDescription: ua.ApplicationDescription{ApplicationURI: "urn:raw:client", ApplicationName: ua.NewLocalizedText("raw", "en"), ApplicationType: ua.ApplicationTypeClient},
		EndpointURL:       c.URL, SessionName: name, ClientNonce: ua.ByteString(nonce), RequestedSessionTimeout: timeout,
	}
	if c.Policy != None {
		req.ClientCertificate = ua.ByteString(c.LocalCert)
		req.ClientDescription.ApplicationURI = CertURI(c.LocalCert)
	}
	v, err := c.Do(req)
	if err != nil {
		return nil, err
	}
	res, ok := v.(*ua.CreateSessionResponse)
	if !ok {
		return nil, fmt.Errorf("unexpected %T", v)
	}
	if c.Policy != None {
		if !bytes.Equal([]byte(res.ServerCertificate), c.RemoteCert) {
			return nil, fmt.Errorf("session server certificate differs from channel")
		}
		pub, _ := c.remotePub()
		if err := c.Policy.Verify(pub, append(append([]byte{}, c.LocalCert...), nonce...), []byte(res.ServerSignature.Signature)); err != nil {
			return nil, fmt.Errorf("server signature: %w", err)
		}
	}
	c.AuthToken, c.SessionID, c.ServerNonce, c.Session = res.AuthenticationToken, res.SessionID, []byte(res.ServerNonce), res
	return res, nil
}

// ClientSig computes the ActivateSession client signature.
func (c *Client) ClientSig() ua.SignatureData {
	if c.Policy == None {
		return ua.SignatureData{}
	}
	return ua.SignatureData{Algorithm: c.Policy.SigURI, Signature: ua.ByteString(c.Policy.Sign(c.LocalKey, append(append([]byte{}, c.RemoteCert...), c.ServerNonce...)))}
}

// Activate activates with the given identity token (an ExtensionObject value) and signatures.
func (c *Client) Activate(token any, clientSig, userSig ua.SignatureData) (*ua.ActivateSessionResponse, error) {
	v, err := c.Do(&ua.ActivateSessionRequest{ClientSignature: clientSig, UserIdentityToken: token, UserTokenSignature: userSig, LocaleIDs: []string{"en"}})
	if err != nil {
		return nil, err
	}
	res, ok := v.(*ua.ActivateSessionResponse)
	if !ok {
		return nil, fmt.Errorf("unexpected %T", v)
	}
	c.ServerNonce = []byte(res.ServerNonce)
	return res, nil
}

// ActivateAnonymous activates anonymously.
func (c *Client) ActivateAnonymous() error {
	_, err := c.Activate(ua.AnonymousIdentityToken{PolicyID: c.PolicyID(ua.UserTokenTypeAnonymous)}, c.ClientSig(), ua.SignatureData{})
	return err
}

// PolicyID finds the id of the user token policy of this endpoint for a token type.
func (c *Client) PolicyID(t ua.UserTokenType) string {
	if c.Session == nil {
		return ""
	}
	for _, e := range c.Session.ServerEndpoints {
		if e.SecurityPolicyURI == c.Policy.URI && int(e.SecurityMode) == c.Mode {
			for _, p := range e.UserIdentityTokens {
				if p.TokenType == t {
					return p.PolicyID
				}
			}
		}
	}
	return ""
}

// UserPolicy finds the user token policy and its effective security policy.
func (c *Client) UserPolicy(t ua.UserTokenType) (ua.UserTokenPolicy, *Policy) {
	for _, e := range c.Session.ServerEndpoints {
		if e.SecurityPolicyURI == c.Policy.URI && int(e.SecurityMode) == c.Mode {
			for _, p := range e.UserIdentityTokens {
				if p.TokenType == t {
					uri := p.SecurityPolicyURI
					if uri == "" {
						uri = e.SecurityPolicyURI
					}
					return p, PolicyByURI(uri)
				}
			}
		}
	}
	return ua.UserTokenPolicy{}, nil
}

// UserNameToken builds an (encrypted where required) user name token. nonce nil uses the current server nonce.
func (c *Client) UserNameToken(user, password string, serverCert, nonce []byte) (ua.UserNameIdentityToken, error) {
	tp, pol := c.UserPolicy(ua.UserTokenTypeUserName)
	tok := ua.UserNameIdentityToken{PolicyID: tp.PolicyID, UserName: user}
	if pol == nil || pol == None {
		tok.Password = ua.ByteString(password)
		return tok, nil
	}
	if nonce == nil {
		nonce = c.ServerNonce
	}
	plain := U32(nil, uint32(len(password)+len(nonce)))
	plain = append(append(plain, password...), nonce...)
	cc := &Chan{RemoteCert: serverCert}
	pub, err := cc.remotePub()
	if err != nil {
		return tok, err
	}
	ct, err := pol.Encrypt(pub, plain)
	if err != nil {
		return tok, err
	}
	tok.Password, tok.EncryptionAlgorithm = ua.ByteString(ct), pol.EncURI
	return tok, nil
}

// Close closes the TCP connection.
func (c *Client) Close() { c.Conn.Close() }
