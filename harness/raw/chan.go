package raw

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"
)

// Security modes.
const (
	ModeNone           = 1
	ModeSign           = 2
	ModeSignAndEncrypt = 3
)

// Chan is one end of a secure conversation.
type Chan struct {
	Conn       net.Conn
	IsServer   bool
	Policy     *Policy
	Mode       int
	LocalKey   *rsa.PrivateKey
	LocalCert  []byte
	RemoteCert []byte

	ChannelID uint32
	TokenID   uint32           // token used for sending
	OpenNonce []byte           // of the last OPN response (client side)
	Tamper    func(sig []byte) // alters a signature before it is encrypted and sent
	Plain     func([]byte)     // alters the content of an asymmetric message before it is signed
	sendKeys  map[uint32]*Keys
	recvKeys  map[uint32]*Keys
	Seq       uint32
	reqID     uint32

	RecvBuf, SendBuf, MaxMsg, MaxChunks uint32 // as negotiated: my receive, my send
	Lifetime                            uint32

	pendingToken uint32 // server: issued, not yet used by the client
	wmu          sync.Mutex
	kmu          sync.Mutex
	Nonce        []byte // last local nonce
}

// EC is the encoding context of all raw peers.
var EC = ua.NewEncodingContext()

// RemoteErr is an ERR message from the peer.
type RemoteErr struct {
	Code   uint32
	Reason string
}

func (e RemoteErr) Error() string { return fmt.Sprintf("remote error 0x%08X %s", e.Code, e.Reason) }

// ReadFrame reads one message chunk from the stream.
func ReadFrame(r io.Reader) ([]byte, error) {
	h := make([]byte, 8)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	n := binary.LittleEndian.Uint32(h[4:])
	if n < 8 || n > 64<<20 {
		return h, fmt.Errorf("frame size %d", n)
	}
	b := make([]byte, n)
	copy(b, h)
	if _, err := io.ReadFull(r, b[8:]); err != nil {
		return b, err
	}
	return b, nil
}

// U32 appends little endian.
func U32(b []byte, vs ...uint32) []byte {
	for _, v := range vs {
		b = binary.LittleEndian.AppendUint32(b, v)
	}
	return b
}

// Str appends a length-prefixed string; nil gives null.
func Str(b []byte, s []byte) []byte {
	if s == nil {
		return U32(b, 0xFFFFFFFF)
	}
	return append(U32(b, uint32(len(s))), s...)
}

// Frame builds type+size+rest.
func Frame(typ string, rest []byte) []byte {
	b := append([]byte(typ), 0, 0, 0, 0)
	b = append(b, rest...)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
	return b
}

// Hello performs the client handshake.
func (c *Chan) Hello(url string, recvBuf, sendBuf, maxMsg, maxChunks uint32) error {
	if _, err := c.Conn.Write(Frame("HELF", Str(U32(nil, 0, recvBuf, sendBuf, maxMsg, maxChunks), []byte(url)))); err != nil {
		return err
	}
	b, err := ReadFrame(c.Conn)
	if err != nil {
		return err
	}
	if e := AsErr(b); e != nil {
		return e
	}
	if string(b[:4]) != "ACKF" || len(b) < 28 {
		return fmt.Errorf("unexpected %q", b[:4])
	}
	g := func(i int) uint32 { return binary.LittleEndian.Uint32(b[8+4*i:]) }
	// ACK: version, receiveBufferSize(server's), sendBufferSize(server's), maxMessageSize, maxChunkCount
	c.SendBuf, c.RecvBuf, c.MaxMsg, c.MaxChunks = g(1), g(2), g(3), g(4)
	return nil
}

// AsErr interprets an ERR frame.
func AsErr(b []byte) error {
	if len(b) >= 16 && string(b[:3]) == "ERR" {
		return RemoteErr{binary.LittleEndian.Uint32(b[8:]), string(b[16:])}
	}
	return nil
}

func (c *Chan) remotePub() (*rsa.PublicKey, error) {
	cs, err := x509.ParseCertificates(c.RemoteCert)
	if err != nil || len(cs) == 0 {
		return nil, errors.New("remote cert")
	}
	k, ok := cs[0].PublicKey.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("remote key")
	}
	return k, nil
}

func (c *Chan) remoteThumb() []byte {
	cs, err := x509.ParseCertificates(c.RemoteCert)
	raw := c.RemoteCert
	if err == nil && len(cs) > 0 {
		raw = cs[0].Raw
	}
	s := sha1.Sum(raw)
	return s[:]
}

// NextSeq advances the send sequence number.
func (c *Chan) NextSeq() uint32 { c.Seq++; return c.Seq }

// NextReq advances the request id.
func (c *Chan) NextReq() uint32 { c.reqID++; return c.reqID }

// SealAsym builds an OPN chunk.
func (c *Chan) SealAsym(seq, reqID uint32, body []byte) ([]byte, error) {
	h := U32(nil, c.ChannelID)
	h = Str(h, []byte(c.Policy.URI))
	if c.Policy == None {
		h = Str(Str(h, nil), nil)
		return Frame("OPNF", append(U32(h, seq, reqID), body...)), nil
	}
	h = Str(h, c.LocalCert)
	h = Str(h, c.remoteThumb())
	pub, err := c.remotePub()
	if err != nil {
		return nil, err
	}
	plain := append(U32(nil, seq, reqID), body...)
	blk := pub.Size() - c.Policy.AsymOver
	hdr := 1
	if pub.Size() > 256 {
		hdr = 2
	}
	sigN := c.LocalKey.Size()
	pad := (blk - (len(plain)+hdr+sigN)%blk) % blk
	plain = append(plain, byte(pad))
	for i := 0; i < pad; i++ {
		plain = append(plain, byte(pad))
	}
	if hdr == 2 {
		plain = append(plain, byte(pad>>8))
	}
	if c.Plain != nil {
		c.Plain(plain)
	}
	total := 8 + len(h) + (len(plain)+sigN)/blk*pub.Size()
	head := append([]byte("OPNF"), U32(nil, uint32(total))...)
	head = append(head, h...)
	sig := c.Policy.Sign(c.LocalKey, append(append([]byte{}, head...), plain...))
	if c.Tamper != nil {
		c.Tamper(sig)
	}
	ct, err := c.Policy.Encrypt(pub, append(plain, sig...))
	if err != nil {
		return nil, err
	}
	return append(head, ct...), nil
}

func take(b *[]byte) ([]byte, error) {
	if len(*b) < 4 {
		return nil, io.ErrUnexpectedEOF
	}
	n := int32(binary.LittleEndian.Uint32(*b))
	*b = (*b)[4:]
	if n < 0 {
		return nil, nil
	}
	if int(n) > len(*b) {
		return nil, io.ErrUnexpectedEOF
	}
	v := (*b)[:n]
	*b = (*b)[n:]
	return v, nil
}

// Opened is a parsed chunk.
type Opened struct {
	Type       string
	ChannelID  uint32
	Token      uint32
	Seq, ReqID uint32
	Body       []byte
	PolicyURI  string
	SenderCert []byte
	Thumb      []byte
}

// OpenAsym parses and verifies an OPN chunk. For a server, it sets Policy and RemoteCert from the header.
func (c *Chan) OpenAsym(f []byte) (*Opened, error) {
	if e := AsErr(f); e != nil {
		return nil, e
	}
	if string(f[:4]) != "OPNF" || len(f) < 12 {
		return nil, fmt.Errorf("unexpected %q", f[:4])
	}
	o := &Opened{Type: "OPNF", ChannelID: binary.LittleEndian.Uint32(f[8:])}
	rest := f[12:]
	uri, err := take(&rest)
	if err != nil {
		return nil, err
	}
	cert, err := take(&rest)
	if err != nil {
		return nil, err
	}
	thumb, err := take(&rest)
	if err != nil {
		return nil, err
	}
	o.PolicyURI, o.SenderCert, o.Thumb = string(uri), cert, thumb
	p := PolicyByURI(o.PolicyURI)
	if p == nil {
		return nil, fmt.Errorf("policy %q", uri)
	}
	if c.IsServer {
		c.Policy = p
		if p != None {
			c.RemoteCert = cert
		}
	} else if p != c.Policy {
		return nil, fmt.Errorf("policy changed to %s", p.Name)
	}
	if p == None {
		if len(rest) < 8 {
			return nil, io.ErrUnexpectedEOF
		}
		o.Seq, o.ReqID, o.Body = binary.LittleEndian.Uint32(rest), binary.LittleEndian.Uint32(rest[4:]), rest[8:]
		return o, nil
	}
	if c.RemoteCert != nil && !bytes.Equal(cert, c.RemoteCert) {
		return nil, errors.New("sender certificate differs")
	}
	own := sha1.Sum(firstCert(c.LocalCert))
	if !bytes.Equal(own[:], thumb) {
		return nil, errors.New("thumbprint does not match")
	}
	plain, err := p.Decrypt(c.LocalKey, rest)
	if err != nil {
		return nil, err
	}
	pub, err := c.remotePub()
	if err != nil {
		return nil, err
	}
	if len(plain) < pub.Size()+9 {
		return nil, io.ErrUnexpectedEOF
	}
	data, sig := plain[:len(plain)-pub.Size()], plain[len(plain)-pub.Size():]
	signed := append(append([]byte{}, f[:len(f)-len(rest)]...), data...)
	if err := p.Verify(pub, signed, sig); err != nil {
		return nil, err
	}
	pad, hdr := int(data[len(data)-1]), 1
	if c.LocalKey.Size() > 256 {
		pad = int(data[len(data)-1])<<8 | int(data[len(data)-2])
		hdr = 2
	}
	end := len(data) - hdr - pad
	if end < 8 {
		return nil, errors.New("padding")
	}
	for i := 0; i <= pad; i++ {
		if data[end+i] != byte(pad) {
			return nil, errors.New("padding bytes")
		}
	}
	o.Seq, o.ReqID, o.Body = binary.LittleEndian.Uint32(data), binary.LittleEndian.Uint32(data[4:]), data[8:end]
	return o, nil
}

func firstCert(b []byte) []byte {
	cs, err := x509.ParseCertificates(b)
	if err != nil || len(cs) == 0 {
		return b
	}
	return cs[0].Raw
}

// SetKeys derives and stores the keys of a token.
func (c *Chan) SetKeys(token uint32, local, remote []byte) {
	c.kmu.Lock()
	defer c.kmu.Unlock()
	if c.sendKeys == nil {
		c.sendKeys, c.recvKeys = map[uint32]*Keys{}, map[uint32]*Keys{}
	}
	if c.Policy == None {
		c.sendKeys[token], c.recvKeys[token] = &Keys{}, &Keys{}
		return
	}
	// keys for sending are derived with secret=remote nonce, seed=local nonce
	c.sendKeys[token] = c.Policy.Derive(remote, local)
	c.recvKeys[token] = c.Policy.Derive(local, remote)
}

// CopyKeys shares the keys of another channel end (for splice attacks).
func (c *Chan) CopyKeys(o *Chan) { c.sendKeys, c.recvKeys = o.sendKeys, o.recvKeys }

// SendKeys returns the keys for a token.
func (c *Chan) SendKeys(token uint32) *Keys {
	c.kmu.Lock()
	defer c.kmu.Unlock()
	return c.sendKeys[token]
}

// RecvKeys returns the keys for a token.
func (c *Chan) RecvKeys(token uint32) *Keys {
	c.kmu.Lock()
	defer c.kmu.Unlock()
	return c.recvKeys[token]
}

// SealSym builds a MSG/CLO chunk; typ is e.g. "MSGF".
func (c *Chan) SealSym(typ string, channel, token, seq, reqID uint32, body []byte) []byte {
	return c.SealSymKeys(c.SendKeys(token), typ, channel, token, seq, reqID, body)
}

// SealSymKeys builds a chunk with the given keys.
func (c *Chan) SealSymKeys(k *Keys, typ string, channel, token, seq, reqID uint32, body []byte) []byte {
	h := U32(nil, channel, token)
	plain := append(U32(nil, seq, reqID), body...)
	if c.Mode == ModeNone || c.Policy == None {
		return Frame(typ, append(h, plain...))
	}
	if c.Mode == ModeSignAndEncrypt {
		pad := (16 - (len(plain)+1+c.Policy.SymSig)%16) % 16
		for i := 0; i <= pad; i++ {
			plain = append(plain, byte(pad))
		}
	}
	return c.FinishSym(k, typ, h, plain)
}

// FinishSym signs and encrypts an already padded plaintext (sequence header, body, padding).
func (c *Chan) FinishSym(k *Keys, typ string, h, plain []byte) []byte {
	total := 8 + len(h) + len(plain) + c.Policy.SymSig
	head := append([]byte(typ), U32(nil, uint32(total))...)
	head = append(head, h...)
	mac := c.Policy.MAC(k, append(append([]byte{}, head...), plain...))
	if c.Tamper != nil {
		c.Tamper(mac)
	}
	out := append(append([]byte{}, plain...), mac...)
	if c.Mode == ModeSignAndEncrypt {
		out = k.crypt(out, true)
	}
	return append(head, out...)
}

// OpenSym verifies and decrypts a MSG/CLO chunk.
func (c *Chan) OpenSym(f []byte) (*Opened, error) {
	if e := AsErr(f); e != nil {
		return nil, e
	}
	if len(f) < 24 {
		return nil, io.ErrUnexpectedEOF
	}
	o := &Opened{Type: string(f[:4]), ChannelID: binary.LittleEndian.Uint32(f[8:]), Token: binary.LittleEndian.Uint32(f[12:])}
	if c.ChannelID != 0 && o.ChannelID != c.ChannelID {
		return nil, fmt.Errorf("channel id %d, want %d", o.ChannelID, c.ChannelID)
	}
	k := c.RecvKeys(o.Token)
	if k == nil {
		return nil, fmt.Errorf("unknown token %d", o.Token)
	}
	plain := f[16:]
	if c.Mode != ModeNone && c.Policy != None {
		n := c.Policy.SymSig
		if c.Mode == ModeSignAndEncrypt {
			if len(plain)%16 != 0 {
				return nil, errors.New("not a multiple of the block size")
			}
			plain = k.crypt(plain, false)
		}
		if len(plain) < n+8 {
			return nil, io.ErrUnexpectedEOF
		}
		data, sig := plain[:len(plain)-n], plain[len(plain)-n:]
		if !hmac.Equal(sig, c.Policy.MAC(k, append(append([]byte{}, f[:16]...), data...))) {
			return nil, errors.New("signature")
		}
		plain = data
		if c.Mode == ModeSignAndEncrypt {
			pad := int(plain[len(plain)-1])
			if len(plain)-1-pad < 8 {
				return nil, errors.New("padding")
			}
			for i := 0; i <= pad; i++ {
				if plain[len(plain)-1-i] != byte(pad) {
					return nil, errors.New("padding bytes")
				}
			}
			plain = plain[:len(plain)-1-pad]
		}
	}
	o.Seq, o.ReqID, o.Body = binary.LittleEndian.Uint32(plain), binary.LittleEndian.Uint32(plain[4:]), plain[8:]
	return o, nil
}

// MaxBody is the largest body of one chunk given my send buffer.
func (c *Chan) MaxBody() int {
	n := int(c.SendBuf) - 16
	if c.Mode == ModeNone || c.Policy == None {
		return n - 8
	}
	if c.Mode == ModeSign {
		return n - 8 - c.Policy.SymSig
	}
	return n/16*16 - 8 - 1 - c.Policy.SymSig
}

// SendMsg sends a message in as many chunks as necessary. typ is "MSG" or "CLO".
func (c *Chan) SendMsg(typ string, reqID uint32, body []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	for {
		n := c.MaxBody()
		last := len(body) <= n
		ct := "C"
		if last {
			n = len(body)
			ct = "F"
		}
		if _, err := c.Conn.Write(c.SealSym(typ+ct, c.ChannelID, c.TokenID, c.NextSeq(), reqID, body[:n])); err != nil {
			return err
		}
		body = body[n:]
		if last {
			return nil
		}
	}
}

// Msg is a reassembled message.
type Msg struct {
	Type   string
	ReqID  uint32
	Body   []byte
	Chunks []*Opened
	Frames [][]byte
}

// RecvMsg reads one whole message. OPN frames are returned unopened in Frames with Type "OPN".
func (c *Chan) RecvMsg() (*Msg, error) {
	m := &Msg{}
	for {
		f, err := ReadFrame(c.Conn)
		if err != nil {
			return m, err
		}
		if e := AsErr(f); e != nil {
			return m, e
		}
		m.Frames = append(m.Frames, f)
		if string(f[:3]) == "OPN" {
			m.Type = "OPN"
			return m, nil
		}
		o, err := c.OpenSym(f)
		if err != nil {
			return m, err
		}
		if c.IsServer && o.Token == c.pendingToken && c.TokenID != o.Token {
			c.wmu.Lock()
			c.TokenID = o.Token
			c.wmu.Unlock()
		}
		m.Chunks = append(m.Chunks, o)
		m.Type, m.ReqID = string(f[:3]), o.ReqID
		m.Body = append(m.Body, o.Body...)
		if f[3] == 'F' {
			return m, nil
		}
		if f[3] == 'A' {
			m.Type = "ABT"
			return m, nil
		}
	}
}

// Encode encodes a service message (type id + body).
func Encode(v any) ([]byte, error) {
	t := reflect.TypeOf(v).Elem()
	id, ok := ua.FindBinaryEncodingIDForType(t)
	if !ok {
		return nil, fmt.Errorf("no encoding id for %s", t)
	}
	var b bytes.Buffer
	e := ua.NewBinaryEncoder(&b, EC)
	if err := e.WriteNodeID(id.NodeID); err != nil {
		return nil, err
	}
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// MustEncode encodes or panics.
func MustEncode(v any) []byte {
	b, err := Encode(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Decode decodes a service message.
func Decode(b []byte) (any, error) {
	r := bytes.NewReader(b)
	d := ua.NewBinaryDecoder(r, EC)
	var id ua.NodeID
	if err := d.ReadNodeID(&id); err != nil {
		return nil, err
	}
	t, ok := ua.FindTypeForBinaryEncodingID(ua.NewExpandedNodeID(id))
	if !ok {
		return nil, fmt.Errorf("unknown message type %v", id)
	}
	v := reflect.New(t).Interface()
	if err := d.Decode(v); err != nil {
		return v, err
	}
	if r.Len() != 0 {
		return v, fmt.Errorf("%d bytes left after %s", r.Len(), t)
	}
	return v, nil
}

// NewNonce makes a nonce of the policy's size.
func (c *Chan) NewNonce() []byte {
	if c.Policy == None {
		return nil
	}
	n := make([]byte, c.Policy.Nonce)
	rand.Read(n)
	return n
}

// Open performs (or renews) OpenSecureChannel as a client.
func (c *Chan) Open(renew bool, lifetime uint32) (*ua.OpenSecureChannelResponse, error) {
	nonce, err := c.SendOpen(renew, lifetime)
	if err != nil {
		return nil, err
	}
	f, err := ReadFrame(c.Conn)
	if err != nil {
		return nil, err
	}
	return c.FinishOpen(f, nonce)
}

// SendOpen sends the OPN request.
func (c *Chan) SendOpen(renew bool, lifetime uint32) ([]byte, error) {
	nonce := c.NewNonce()
	rt := ua.SecurityTokenRequestTypeIssue
	if renew {
		rt = ua.SecurityTokenRequestTypeRenew
	}
	req := &ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1, TimeoutHint: 60000}, RequestType: rt, SecurityMode: ua.MessageSecurityMode(c.Mode), ClientNonce: ua.ByteString(nonce), RequestedLifetime: lifetime}
	b, err := Encode(req)
	if err != nil {
		return nil, err
	}
	c.wmu.Lock()
	defer c.wmu.Unlock()
	f, err := c.SealAsym(c.NextSeq(), c.NextReq(), b)
	if err != nil {
		return nil, err
	}
	_, err = c.Conn.Write(f)
	return nonce, err
}

// FinishOpen handles the OPN response.
func (c *Chan) FinishOpen(f, nonce []byte) (*ua.OpenSecureChannelResponse, error) {
	o, err := c.OpenAsym(f)
	if err != nil {
		return nil, err
	}
	v, err := Decode(o.Body)
	if err != nil {
		return nil, err
	}
	res, ok := v.(*ua.OpenSecureChannelResponse)
	if !ok {
		if sf, ok := v.(*ua.ServiceFault); ok {
			return nil, sf.ServiceResult
		}
		return nil, fmt.Errorf("unexpected %T", v)
	}
	if res.ServiceResult != ua.Good {
		return nil, res.ServiceResult
	}
	c.ChannelID, c.TokenID, c.Lifetime = res.SecurityToken.ChannelID, res.SecurityToken.TokenID, res.SecurityToken.RevisedLifetime
	if o.ChannelID != c.ChannelID {
		return nil, fmt.Errorf("channel id in header %d, in token %d", o.ChannelID, c.ChannelID)
	}
	if c.Policy != None && len(res.ServerNonce) != c.Policy.Nonce {
		return nil, fmt.Errorf("server nonce length %d", len(res.ServerNonce))
	}
	c.SetKeys(c.TokenID, nonce, []byte(res.ServerNonce))
	c.Nonce = nonce
	c.OpenNonce = []byte(res.ServerNonce)
	return res, nil
}
