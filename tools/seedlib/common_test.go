package zzdemo

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

var (
	keyOnce                      sync.Once
	serverRSA, clientRSA         *rsa.PrivateKey
	serverCertDER, clientCertDER []byte
)

func mkCert(cn string, key *rsa.PrivateKey) []byte {
	u, _ := url.Parse("urn:demo:" + cn)
	tm := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, SubjectKeyId: []byte(cn),
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), BasicConstraintsValid: true,
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		DNSNames:    []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, URIs: []*url.URL{u},
	}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return der
}

func keys() {
	keyOnce.Do(func() {
		serverRSA, _ = rsa.GenerateKey(rand.Reader, 2048)
		clientRSA, _ = rsa.GenerateKey(rand.Reader, 2048)
		serverCertDER, clientCertDER = mkCert("server", serverRSA), mkCert("client", clientRSA)
	})
}

const everything = ua.PermissionTypeBrowse | ua.PermissionTypeRead | ua.PermissionTypeWrite | ua.PermissionTypeReadHistory | ua.PermissionTypeReceiveEvents | ua.PermissionTypeCall | ua.PermissionTypeWriteHistorizing | ua.PermissionTypeReadRolePermissions

// start runs a server on a free port.
func start(t testing.TB, opts ...server.Option) (*server.Server, string) {
	keys()
	dir := t.TempDir()
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	u := fmt.Sprintf("opc.tcp://127.0.0.1:%d", port)
	crt, key := filepath.Join(dir, "s.crt"), filepath.Join(dir, "s.key")
	os.WriteFile(crt, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: serverCertDER}), 0o644)
	os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(serverRSA)}), 0o600)
	base := []server.Option{
		server.WithAuthenticateAnonymousIdentityFunc(func(ua.AnonymousIdentity, string, string) error { return nil }),
		server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, _ string, _ string) error {
			if u.Password == "pw-"+u.UserName {
				return nil
			}
			return ua.BadUserAccessDenied
		}),
		server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify(),
		server.WithRolePermissions([]ua.RolePermissionType{
			{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: everything},
			{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: everything},
		}),
	}
	srv, err := server.New(ua.ApplicationDescription{ApplicationURI: "urn:demo:server", ProductURI: "urn:demo", ApplicationName: ua.NewLocalizedText("demo", "en"), ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: []string{u}}, crt, key, u, append(base, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	go srv.ListenAndServe()
	for i := 0; i < 200; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			c.Close()
			return srv, u
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("server does not listen")
	return nil, ""
}

// dial opens a client, by default without security and anonymously.
func dial(t testing.TB, url string, opts ...client.Option) *client.Client {
	base := []client.Option{client.WithInsecureSkipVerify(), client.WithSecurityPolicyURI(ua.SecurityPolicyURINone, ua.MessageSecurityModeNone)}
	c, err := client.Dial(context.Background(), url, append(base, opts...)...)
	if err != nil {
		t.Fatal("dial: ", err)
	}
	return c
}

func secure(policy string, mode ua.MessageSecurityMode) []client.Option {
	keys()
	return []client.Option{client.WithClientCertificate(clientCertDER, clientRSA), client.WithSecurityPolicyURI(policy, mode)}
}

// addVar adds a variable below Objects.
func addVar(t testing.TB, srv *server.Server, name string, value ua.Variant, dataType ua.NodeID, rank int32, perms []ua.RolePermissionType) *server.VariableNode {
	ns := srv.NamespaceManager().Add("urn:demo:nodes")
	v := server.NewVariableNode(srv, ua.NewNodeIDString(ns, name), ua.NewQualifiedName(ns, name), ua.NewLocalizedText(name, ""), ua.NewLocalizedText(name, ""), perms,
		[]ua.Reference{
			{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)},
			{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.VariableTypeIDBaseDataVariableType)},
		}, ua.NewDataValue(value, ua.Good, time.Now(), 0, time.Now(), 0), dataType, rank, nil,
		ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, 0, false, nil)
	if err := srv.NamespaceManager().AddNode(v); err != nil {
		t.Fatal(err)
	}
	return v
}

func ctxT(d time.Duration) context.Context {
	c, _ := context.WithTimeout(context.Background(), d)
	return c
}
