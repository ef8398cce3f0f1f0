package main

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"crypto/x509/pkix"
	"embed"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/raw"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

//go:embed keys/*.pem
var keyFS embed.FS

var (
	keyMu    sync.Mutex
	keyCache = map[string]*rsa.PrivateKey{}
)

// rsaKey returns one of the fixed test keys.
func rsaKey(name string) *rsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k := keyCache[name]; k != nil {
		return k
	}
	b, err := keyFS.ReadFile("keys/" + name + ".pem")
	must(err)
	p, _ := pem.Decode(b)
	k, err := x509.ParsePKCS1PrivateKey(p.Bytes)
	must(err)
	keyCache[name] = k
	return k
}

func keyPEM(k *rsa.PrivateKey) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
}

func certPEM(ders ...[]byte) []byte {
	var out []byte
	for _, d := range ders {
		out = append(out, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d})...)
	}
	return out
}

var certSerial int64 = 1000

// CertSpec describes a certificate to make.
type CertSpec struct {
	CN                  string
	URI                 string
	DNS                 []string
	IPs                 []net.IP
	NotBefore, NotAfter time.Time
	KeyUsage            x509.KeyUsage
	ExtUsage            []x509.ExtKeyUsage
	IsCA                bool
	Pub                 crypto.PublicKey
	Issuer              *x509.Certificate // nil: self-signed
	Signer              crypto.Signer
	Serial              int64
}

// makeCert creates a certificate.
func makeCert(s CertSpec) *x509.Certificate {
	if s.NotBefore.IsZero() {
		s.NotBefore = time.Now().Add(-24 * time.Hour)
	}
	if s.NotAfter.IsZero() {
		s.NotAfter = time.Now().Add(365 * 24 * time.Hour)
	}
	if s.Serial == 0 {
		s.Serial = atomic.AddInt64(&certSerial, 1)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(s.Serial), Subject: pkix.Name{CommonName: s.CN, Organization: []string{"verif"}},
		NotBefore: s.NotBefore, NotAfter: s.NotAfter, KeyUsage: s.KeyUsage, ExtKeyUsage: s.ExtUsage,
		IsCA: s.IsCA, BasicConstraintsValid: true, DNSNames: s.DNS, IPAddresses: s.IPs,
	}
	if s.URI != "" {
		u, err := url.Parse(s.URI)
		must(err)
		t.URIs = []*url.URL{u}
	}
	if rk, ok := s.Pub.(*rsa.PublicKey); ok {
		h := sha1.Sum(x509.MarshalPKCS1PublicKey(rk))
		t.SubjectKeyId = h[:]
	}
	parent := s.Issuer
	if parent == nil {
		parent = t
	} else {
		t.AuthorityKeyId = parent.SubjectKeyId
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, s.Pub, s.Signer)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return c
}

const appUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment | x509.KeyUsageCertSign

// appCert makes a self-signed application instance certificate.
func appCert(cn, uri string, key *rsa.PrivateKey) *x509.Certificate {
	return makeCert(CertSpec{CN: cn, URI: uri, DNS: []string{"localhost"}, IPs: []net.IP{net.IPv4(127, 0, 0, 1)}, KeyUsage: appUsage,
		ExtUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, Pub: &key.PublicKey, Signer: key})
}

func ecCert(cn, uri string) (*x509.Certificate, *ecdsa.PrivateKey) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	return makeCert(CertSpec{CN: cn, URI: uri, DNS: []string{"localhost"}, IPs: []net.IP{net.IPv4(127, 0, 0, 1)}, KeyUsage: appUsage,
		ExtUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, Pub: &k.PublicKey, Signer: k}), k
}

// World is a running server and its identities.
type World struct {
	C          *Ctx
	Srv        *server.Server
	URL        string
	Port       int
	Dir        string
	ServerCert []byte
	ServerKey  *rsa.PrivateKey
	ClientCert []byte
	ClientKey  *rsa.PrivateKey
	Served     chan error
}

var worldN int32

// freePort returns a port outside the range of ephemeral ports, so that no connection of
// this process can take it before the server listens.
func freePort() int {
	const lo, n = 10000, 20000
	portOnce.Do(func() { nextPort = uint32(os.Getpid()*131+int(time.Now().UnixNano()/1000)) % n })
	for i := 0; i < 1000; i++ {
		p := lo + int(atomic.AddUint32(&nextPort, 1)%n)
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
	panic("no free port")
}

var (
	portOnce sync.Once
	nextPort uint32
)

const (
	serverURI = "urn:verif:server"
	clientURI = "urn:verif:client"
)

// WorldOpts configures newWorld.
type WorldOpts struct {
	Opts      []server.Option
	NoDefault bool // no default authenticators/none policy/skip verify
	ServerKey string
	ClientKey string
	NoServe   bool
	Port      int
}

// userDB is the default user name table.
var userDB = map[string]string{"root": "secret", "user1": "password1", "user2": "password2", "op": "op"}

const allPermissions = ua.PermissionTypeBrowse | ua.PermissionTypeRead | ua.PermissionTypeWrite | ua.PermissionTypeReadHistory | ua.PermissionTypeReceiveEvents | ua.PermissionTypeCall | ua.PermissionTypeWriteHistorizing | ua.PermissionTypeReadRolePermissions

func defaultServerOpts() []server.Option {
	return []server.Option{
		server.WithAuthenticateAnonymousIdentityFunc(func(ua.AnonymousIdentity, string, string) error { return nil }),
		server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, _ string, _ string) error {
			if p, ok := userDB[u.UserName]; ok && p == u.Password {
				return nil
			}
			return ua.BadUserAccessDenied
		}),
		server.WithSecurityPolicyNone(true),
		server.WithInsecureSkipVerify(),
		server.WithRolePermissions([]ua.RolePermissionType{
			{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: allPermissions},
			{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: allPermissions},
		}),
	}
}

// newWorld creates (and starts) a server on a free port.
func newWorld(c *Ctx, o WorldOpts) *World {
	n := atomic.AddInt32(&worldN, 1)
	w := &World{C: c, Dir: filepath.Join(c.Dir, fmt.Sprintf("w%d", n))}
	must(os.MkdirAll(w.Dir, 0o755))
	if o.ServerKey == "" {
		o.ServerKey = "k0"
	}
	if o.ClientKey == "" {
		o.ClientKey = "k1"
	}
	w.ServerKey, w.ClientKey = rsaKey(o.ServerKey), rsaKey(o.ClientKey)
	sc := appCert("server", serverURI, w.ServerKey)
	cc := appCert("client", clientURI, w.ClientKey)
	w.ServerCert, w.ClientCert = sc.Raw, cc.Raw
	must(os.WriteFile(w.path("server.crt"), certPEM(w.ServerCert), 0o644))
	must(os.WriteFile(w.path("server.key"), keyPEM(w.ServerKey), 0o600))
	w.Port = o.Port
	if w.Port == 0 {
		w.Port = freePort()
	}
	w.URL = fmt.Sprintf("opc.tcp://127.0.0.1:%d", w.Port)
	opts := o.Opts
	if !o.NoDefault {
		opts = append(defaultServerOpts(), opts...)
	}
	srv, err := server.New(ua.ApplicationDescription{ApplicationURI: serverURI, ProductURI: "urn:verif", ApplicationName: ua.NewLocalizedText("verif", "en"), ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: []string{w.URL}},
		w.path("server.crt"), w.path("server.key"), w.URL, opts...)
	must(err)
	w.Srv = srv
	if !o.NoServe {
		w.Serve()
	}
	return w
}

func (w *World) path(s string) string { return filepath.Join(w.Dir, s) }

// Serve starts listening and waits until the port accepts.
func (w *World) Serve() {
	w.Served = make(chan error, 1)
	go func() { w.Served <- w.Srv.ListenAndServe() }()
	for i := 0; ; i++ {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.Port), time.Second)
		if err == nil {
			c.Close()
		}
		select {
		case e := <-w.Served:
			panic(fmt.Sprintf("server does not listen: %v", e))
		default:
		}
		if err == nil {
			return
		}
		if i > 600 {
			panic("server does not listen: " + err.Error())
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// Raw dials a raw client channel.
func (w *World) Raw(p *raw.Policy, mode int, mod ...func(*raw.Config)) (*raw.Client, error) {
	cfg := raw.Config{URL: w.URL, Policy: p, Mode: mode, Key: w.ClientKey, Cert: w.ClientCert, ServerCert: w.ServerCert}
	if p == raw.None {
		cfg.Mode = raw.ModeNone
	}
	for _, m := range mod {
		m(&cfg)
	}
	return raw.Dial(cfg)
}

// RawSession dials a raw client on policy None and activates an anonymous session.
func (w *World) RawSession(p *raw.Policy, mode int, mod ...func(*raw.Config)) (*raw.Client, error) {
	r, err := w.Raw(p, mode, mod...)
	if err != nil {
		return nil, err
	}
	if _, err := r.CreateSession("raw", 60000); err != nil {
		r.Close()
		return nil, err
	}
	if err := r.ActivateAnonymous(); err != nil {
		r.Close()
		return nil, err
	}
	return r, nil
}

// RawUser dials a raw client and activates a session with user name and password.
func (w *World) RawUser(p *raw.Policy, mode int, user, pw string) (*raw.Client, error) {
	r, err := w.Raw(p, mode)
	if err != nil {
		return nil, err
	}
	if _, err := r.CreateSession("raw", 60000); err != nil {
		r.Close()
		return nil, err
	}
	tok, err := r.UserNameToken(user, pw, w.ServerCert, nil)
	if err != nil {
		r.Close()
		return nil, err
	}
	if _, err := r.Activate(tok, r.ClientSig(), ua.SignatureData{}); err != nil {
		r.Close()
		return nil, err
	}
	return r, nil
}

// Dial opens a library client.
func (w *World) Dial(p *raw.Policy, mode int, opts ...client.Option) (*client.Client, error) {
	return dialURL(w, w.URL, p, mode, opts...)
}

func dialURL(w *World, url string, p *raw.Policy, mode int, opts ...client.Option) (*client.Client, error) {
	o := []client.Option{client.WithInsecureSkipVerify(), client.WithApplicationName("verif")}
	if p == nil || p == raw.None {
		o = append(o, client.WithSecurityPolicyURI(ua.SecurityPolicyURINone, ua.MessageSecurityModeNone))
	} else {
		o = append(o, client.WithSecurityPolicyURI(p.URI, ua.MessageSecurityMode(mode)), client.WithClientCertificate(w.ClientCert, w.ClientKey))
	}
	o = append(o, opts...)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	return client.Dial(ctx, url, o...)
}

func bg() context.Context { return context.Background() }

func ctxT(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

// within runs f and reports whether it returned within d.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

var ns2 = uint16(2)

// ensureNS adds the harness namespace and returns its index.
func (w *World) ensureNS() uint16 { return w.Srv.NamespaceManager().Add("urn:verif:nodes") }

func organizedBy(id ua.NodeID) ua.Reference {
	return ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(id)}
}

func hasTypeDef(id ua.NodeID) ua.Reference {
	return ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, IsInverse: false, TargetID: ua.NewExpandedNodeID(id)}
}

// VarSpec describes a variable.
type VarSpec struct {
	ID          ua.NodeID
	Name        string
	Value       ua.Variant
	DataType    ua.NodeID
	Rank        int32
	Rank0       bool // Rank is OneOrMoreDimensions
	Dims        []uint32
	Access      byte
	Perms       []ua.RolePermissionType
	Hist        bool
	Historian   server.HistoryReadWriter
	Refs        []ua.Reference
	MinSampling float64
}

// addVar adds a variable under Objects.
func (w *World) addVar(s VarSpec) *server.VariableNode {
	ns := w.ensureNS()
	if s.ID == nil {
		s.ID = ua.NewNodeIDString(ns, s.Name)
	}
	if s.Access == 0 {
		s.Access = ua.AccessLevelsCurrentRead | ua.AccessLevelsCurrentWrite | ua.AccessLevelsStatusWrite | ua.AccessLevelsTimestampWrite
	}
	if s.Rank == 0 && !s.Rank0 {
		s.Rank = ua.ValueRankScalar
	}
	if s.Refs == nil {
		s.Refs = []ua.Reference{organizedBy(ua.ObjectIDObjectsFolder), hasTypeDef(ua.VariableTypeIDBaseDataVariableType)}
	}
	now := time.Now()
	v := server.NewVariableNode(w.Srv, s.ID, ua.NewQualifiedName(ns, s.Name), ua.NewLocalizedText(s.Name, ""), ua.NewLocalizedText("d:"+s.Name, ""), s.Perms, s.Refs,
		ua.NewDataValue(s.Value, ua.Good, now, 0, now, 0), s.DataType, s.Rank, s.Dims, s.Access, s.MinSampling, s.Hist, s.Historian)
	must(w.Srv.NamespaceManager().AddNode(v))
	return v
}
