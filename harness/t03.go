package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"verifharness/raw"
)

func init() {
	register("T03", &check{run: runT03, minEvals: 1200, minDistinct: 300,
		rule:        "generated certificate chains (depth 1-3, forged or cross-signed issuers, validity windows, usages, revocation lists, host names, trust configurations) are offered to ua.ValidateCertificate, to a running server by an independent client and to the library's client by an independent server; acceptance is compared with a predicate over the generated attributes, and a refused peer must get no channel",
		assumptions: []string{"not judged: certificates without extended key usage restrictions in the leaf, issuers that only the peer supplies and that are self-signed, revocation when chain building is suppressed"}})
}

// t03Crl is the state of the revocation list of an issuer.
type t03Crl string

const (
	crlClean     t03Crl = "clean"
	crlNone      t03Crl = "none"
	crlExpired   t03Crl = "expired"
	crlRevokes   t03Crl = "revokes"
	crlExpRev    t03Crl = "expired-revokes"
	crlCleanRev  t03Crl = "clean+revokes"
	crlRevClean  t03Crl = "revokes+clean"
	crlOther     t03Crl = "other-serial"
	crlImpClean  t03Crl = "impostor-clean"
	crlImpRev    t03Crl = "clean+impostor-revokes"
	crlExpClean  t03Crl = "expired+clean"
	crlGrandson  t03Crl = "lists-grandchild" // the serial number of a certificate of another issuer
	placeTrusted        = "trusted"
	placeIssuers        = "issuers"
	placeSent           = "sent"
	placeAbsent         = "absent"
)

type t03CA struct {
	place    string
	window   string
	isCA     bool
	certSign bool
	crl      t03Crl
	crlPlace string // trusted or issuers
}

type t03Case struct {
	depth       int // 1: self-signed
	window      string
	eku         string
	dns         []string
	ips         []string
	host        string
	client      bool // the peer is a client
	leafTrusted bool
	forged      bool // the leaf is not signed by the issuer it names
	cross       bool // depth 3: another certificate for the intermediate, of an unknown root, is sent as well
	ca          [2]t03CA
	format      int
	why         []string
}

func (k *t03Case) String() string {
	s := fmt.Sprintf("depth %d", k.depth)
	if len(k.why) > 0 {
		s += ": " + strings.Join(k.why, ", ")
	}
	return s
}

// cas are the issuers, from the leaf's issuer to the root.
func (k *t03Case) cas() []*t03CA {
	switch k.depth {
	case 2:
		return []*t03CA{&k.ca[0]}
	case 3:
		return []*t03CA{&k.ca[1], &k.ca[0]}
	}
	return nil
}

func (c *t03CA) crlOK() (counts, revokes bool) {
	switch c.crl {
	case crlClean, crlOther, crlImpRev, crlExpClean, crlGrandson:
		return true, false
	case crlRevokes, crlCleanRev, crlRevClean:
		return true, true
	}
	return false, false
}

func hostMatches(host string, dns, ips []string) bool {
	if ip := net.ParseIP(host); ip != nil {
		for _, s := range ips {
			if ip.Equal(net.ParseIP(s)) {
				return true
			}
		}
		return false
	}
	h := strings.ToLower(host)
	for _, d := range dns {
		d = strings.ToLower(d)
		if d == h {
			return true
		}
		if strings.HasPrefix(d, "*.") {
			if i := strings.IndexByte(h, '.'); i > 0 && h[i:] == d[1:] {
				return true
			}
		}
	}
	return false
}

// accept is the predicate.
func (k *t03Case) accept() (ok bool, reason string) {
	if k.forged {
		return false, "forged"
	}
	if k.window != "ok" {
		return false, "leaf " + k.window
	}
	want := "server"
	if k.client {
		want = "client"
	}
	if k.eku != want && k.eku != "both" {
		return false, "usage " + k.eku
	}
	if !k.client && !hostMatches(k.host, k.dns, k.ips) {
		return false, "host"
	}
	trusted := k.leafTrusted
	for i, c := range k.cas() {
		switch {
		case c.place == placeAbsent:
			return false, "incomplete"
		case c.window != "ok":
			return false, "issuer " + c.window
		case !c.isCA:
			return false, "issuer is no CA"
		case !c.certSign:
			return false, "issuer may not sign"
		}
		if c.place == placeTrusted {
			trusted = true
		}
		counts, revokes := c.crlOK()
		if !counts {
			return false, fmt.Sprintf("revocation unknown %d", i)
		}
		if revokes {
			return false, fmt.Sprintf("revoked %d", i)
		}
	}
	if !trusted {
		return false, "untrusted"
	}
	return true, "good"
}

func pick[T any](r *mrand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func genT03(r *mrand.Rand) *t03Case {
	k := &t03Case{depth: 1 + r.Intn(3), window: "ok", eku: "both", dns: []string{"localhost"}, ips: []string{"127.0.0.1"}, host: pick(r, "localhost", "127.0.0.1"), client: r.Intn(2) == 0, format: r.Intn(5)}
	for i := range k.ca {
		k.ca[i] = t03CA{place: pick(r, placeTrusted, placeIssuers), window: "ok", isCA: true, certSign: true, crl: pick(r, crlClean, crlClean, crlOther, crlImpRev, crlExpClean), crlPlace: pick(r, placeTrusted, placeIssuers)}
	}
	// one trusted member
	if k.depth == 1 || r.Intn(3) == 0 {
		k.leafTrusted = true
	} else if cs := k.cas(); !func() bool {
		for _, c := range cs {
			if c.place == placeTrusted {
				return true
			}
		}
		return false
	}() {
		cs[r.Intn(len(cs))].place = placeTrusted
	}
	if k.depth == 3 && r.Intn(3) == 0 && k.ca[0].place == placeTrusted {
		k.ca[1].place = placeSent
	}
	if k.depth == 3 && r.Intn(4) == 0 {
		k.ca[0].crl = crlGrandson
	}
	if r.Intn(3) == 0 {
		if k.client {
			k.eku = "client"
		} else {
			k.eku = "server"
		}
	}
	if k.depth == 3 && r.Intn(4) == 0 {
		k.cross = true
	}
	for n := pick(r, 0, 0, 1, 1, 1, 2); n > 0; n-- {
		cas := k.cas()
		var c *t03CA
		if len(cas) > 0 {
			c = cas[r.Intn(len(cas))]
		}
		d := r.Intn(11)
		if d >= 5 && c == nil {
			d = r.Intn(5)
		}
		w := ""
		switch d {
		case 0:
			k.window = pick(r, "expired", "future", "just-expired", "soon")
			w = "leaf " + k.window
		case 1:
			k.eku = pick(r, "none", "client", "server", "code")
			w = "usage " + k.eku
		case 2:
			k.dns, k.ips = [][]string{{"other.example"}, {"*.localhost"}, {"localhost.example"}, {}, {"127.0.0.1"}, {"LOCALHOST"}}[r.Intn(6)], [][]string{{"10.0.0.1"}, {"127.0.0.2"}, {}, {"127.0.0.1"}}[r.Intn(4)]
			w = fmt.Sprintf("names %v %v for %s", k.dns, k.ips, k.host)
		case 3:
			k.leafTrusted = !k.leafTrusted
			w = fmt.Sprintf("leaf trusted %v", k.leafTrusted)
		case 4:
			if k.depth == 1 {
				k.leafTrusted = false
				w = "leaf not trusted"
			} else {
				k.forged = true
				w = "forged"
			}
		case 5, 6:
			c.place = pick(r, placeAbsent, placeIssuers, placeTrusted, placeSent)
			w = "issuer " + c.place
		case 7:
			c.window = pick(r, "expired", "future")
			w = "issuer " + c.window
		case 8:
			if r.Intn(2) == 0 {
				c.isCA = false
				w = "issuer is no CA"
			} else {
				c.certSign = false
				w = "issuer may not sign"
			}
		case 9, 10:
			c.crl = pick(r, crlNone, crlExpired, crlRevokes, crlExpRev, crlCleanRev, crlRevClean, crlImpClean)
			w = "list " + string(c.crl)
		}
		k.why = append(k.why, w)
	}
	// a leaf that is itself trusted may have a path to a root that only the peer supplies, which is not judged
	if k.leafTrusted && k.cross {
		k.cross = false
	}
	if k.leafTrusted && k.forged {
		k.leafTrusted = false
	}
	return k
}

func window(w string) (time.Time, time.Time) {
	now := time.Now()
	switch w {
	case "expired":
		return now.Add(-100 * time.Hour), now.Add(-50 * time.Hour)
	case "just-expired":
		return now.Add(-100 * time.Hour), now.Add(-5 * time.Second)
	case "future":
		return now.Add(50 * time.Hour), now.Add(100 * time.Hour)
	case "soon":
		return now.Add(10 * time.Minute), now.Add(100 * time.Hour)
	}
	return now.Add(-24 * time.Hour), now.Add(240 * time.Hour)
}

// t03Made is a case in the form of certificates and files.
type t03Made struct {
	chain                            []*x509.Certificate // the leaf and what the peer sends with it
	trusted, trustedCRL              string
	issuers, issuersCRL              string
	rejected                         string
	selfSuppliedRoot                 bool
	dir                              string
	trustedN, issuersN, crlN, crlIsN int
}

func (m *t03Made) der() []byte {
	var b []byte
	for _, c := range m.chain {
		b = append(b, c.Raw...)
	}
	return b
}

func makeCRL(issuer *x509.Certificate, key *rsa.PrivateKey, expired bool, n int64, serials ...*big.Int) []byte {
	t := &x509.RevocationList{Number: big.NewInt(n), ThisUpdate: time.Now().Add(-48 * time.Hour), NextUpdate: time.Now().Add(48 * time.Hour)}
	if expired {
		t.NextUpdate = time.Now().Add(-time.Hour)
	}
	for _, s := range serials {
		t.RevokedCertificates = append(t.RevokedCertificates, pkix.RevokedCertificate{SerialNumber: s, RevocationTime: time.Now().Add(-40 * time.Hour)})
	}
	// the list is made whatever the issuer may do
	ic := *issuer
	ic.KeyUsage |= x509.KeyUsageCRLSign
	der, err := x509.CreateRevocationList(rand.Reader, t, &ic, key)
	must(err)
	return der
}

var t03n int64

// make creates the certificates of a case for the key of the peer and writes the files below dir.
func (k *t03Case) make(dir string, key *rsa.PrivateKey, uri string) *t03Made {
	m := &t03Made{dir: dir}
	id := atomic.AddInt64(&t03n, 1)
	keys := []*rsa.PrivateKey{rsaKey("k2"), rsaKey("k3")}
	bad := rsaKey("k4")
	cas := make([]*x509.Certificate, 2)
	mkCA := func(i int, name string, key, signer *rsa.PrivateKey, issuer *x509.Certificate) *x509.Certificate {
		c := k.ca[i]
		s := CertSpec{CN: name, KeyUsage: x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature, IsCA: c.isCA, Pub: &key.PublicKey, Signer: signer, Issuer: issuer}
		if c.certSign {
			s.KeyUsage |= x509.KeyUsageCertSign
		}
		s.NotBefore, s.NotAfter = window(c.window)
		return makeCert(s)
	}
	rootName, interName := fmt.Sprintf("root%d", id), fmt.Sprintf("inter%d", id)
	var crossInter *x509.Certificate
	if k.depth >= 2 {
		cas[0] = mkCA(0, rootName, keys[0], keys[0], nil)
	}
	if k.depth == 3 {
		cas[1] = mkCA(1, interName, keys[1], keys[0], cas[0])
		if k.cross {
			other := makeCert(CertSpec{CN: "other" + rootName, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, IsCA: true, Pub: &bad.PublicKey, Signer: bad})
			crossInter = mkCA(1, interName, keys[1], bad, other)
			m.chain = append(m.chain, crossInter, other)
		}
	}
	spec := CertSpec{CN: fmt.Sprintf("leaf%d", id), URI: uri, DNS: k.dns, KeyUsage: appUsage, Pub: &key.PublicKey, Signer: key}
	for _, s := range k.ips {
		spec.IPs = append(spec.IPs, net.ParseIP(s))
	}
	if len(k.dns) == 0 && len(k.ips) == 0 {
		spec.CN = k.host // the name alone does not count
	}
	spec.NotBefore, spec.NotAfter = window(k.window)
	switch k.eku {
	case "both":
		spec.ExtUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	case "client":
		spec.ExtUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	case "server":
		spec.ExtUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	case "code":
		spec.ExtUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageCodeSigning}
	}
	if k.depth > 1 {
		i := k.depth - 2
		spec.Issuer, spec.Signer = cas[i], keys[i]
		if k.forged {
			// an issuer of the same name with another key, which the peer supplies
			imp := makeCert(CertSpec{CN: cas[i].Subject.CommonName, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, IsCA: true, Pub: &bad.PublicKey, Signer: bad})
			spec.Signer = bad
			if id%2 == 0 {
				spec.Issuer = imp
			}
			m.chain = append(m.chain, imp)
		}
	}
	// x509.CreateCertificate wants a signer that fits the issuer
	if spec.Issuer != nil && k.forged {
		ic := *spec.Issuer
		ic.PublicKey = &bad.PublicKey
		spec.Issuer = &ic
	}
	leaf := makeCert(spec)
	m.chain = append([]*x509.Certificate{leaf}, m.chain...)
	var trusted, issuers []*x509.Certificate
	if k.leafTrusted {
		trusted = append(trusted, leaf)
	}
	var tcrl, icrl [][]byte
	for i := range cas {
		c := cas[i]
		if c == nil {
			continue
		}
		switch k.ca[i].place {
		case placeTrusted:
			trusted = append(trusted, c)
		case placeIssuers:
			issuers = append(issuers, c)
		case placeSent:
			m.chain = append(m.chain, c)
			if i == 0 {
				m.selfSuppliedRoot = true
			}
		}
		child := leaf
		if i == 0 && k.depth == 3 {
			child = cas[1]
		}
		unrelated := big.NewInt(child.SerialNumber.Int64() + 1000000)
		crl := func(expired bool, n int64, serials ...*big.Int) []byte {
			return makeCRL(c, keys[i], expired, n, append(serials, unrelated)...)
		}
		impostor := func(serials ...*big.Int) []byte {
			imp := makeCert(CertSpec{CN: c.Subject.CommonName, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, IsCA: true, Pub: &bad.PublicKey, Signer: bad})
			return makeCRL(imp, bad, false, 3, serials...)
		}
		s := child.SerialNumber
		var l [][]byte
		switch k.ca[i].crl {
		case crlClean:
			l = [][]byte{crl(false, 1)}
		case crlOther:
			l = [][]byte{crl(false, 1, big.NewInt(s.Int64()+1), big.NewInt(s.Int64()-1))}
		case crlExpired:
			l = [][]byte{crl(true, 1)}
		case crlRevokes:
			l = [][]byte{crl(false, 1, s)}
		case crlExpRev:
			l = [][]byte{crl(true, 1, s)}
		case crlCleanRev:
			l = [][]byte{crl(false, 1), crl(false, 2, s)}
		case crlRevClean:
			l = [][]byte{crl(false, 2, s), crl(false, 1)}
		case crlImpClean:
			l = [][]byte{impostor()}
		case crlImpRev:
			l = [][]byte{impostor(s), crl(false, 1)}
		case crlExpClean:
			l = [][]byte{crl(true, 1), crl(false, 2)}
		case crlGrandson:
			l = [][]byte{crl(false, 1, leaf.SerialNumber)}
		}
		if k.ca[i].crlPlace == placeTrusted {
			tcrl = append(tcrl, l...)
		} else {
			icrl = append(icrl, l...)
		}
	}
	if k.cross {
		// the lists that the other path would need
		icrl = append(icrl, makeCRL(m.chain[2], bad, false, 1))
	}
	// bystanders
	trusted = append(trusted, t03Other())
	var td, id2 [][]byte
	for _, c := range trusted {
		td = append(td, c.Raw)
	}
	for _, c := range issuers {
		id2 = append(id2, c.Raw)
	}
	m.trusted = t03Files(filepath.Join(dir, "trusted"), td, "CERTIFICATE", k.format)
	m.issuers = t03Files(filepath.Join(dir, "issuers"), id2, "CERTIFICATE", k.format+1)
	m.trustedCRL = t03Files(filepath.Join(dir, "tcrl"), tcrl, "X509 CRL", k.format+2)
	m.issuersCRL = t03Files(filepath.Join(dir, "icrl"), icrl, "X509 CRL", k.format+3)
	m.rejected = filepath.Join(dir, "rejected")
	os.RemoveAll(m.rejected)
	return m
}

var t03Other = sync.OnceValue(func() *x509.Certificate { return appCert("other", "urn:other", rsaKey("k5")) })

// t03Files writes objects in one of the supported layouts and returns the path to give.
func t03Files(dir string, ders [][]byte, typ string, format int) string {
	os.RemoveAll(dir)
	must(os.MkdirAll(dir, 0o755))
	if len(ders) == 0 {
		if format%2 == 0 {
			return ""
		}
		return dir
	}
	var names []string
	write := func(n string, b []byte) {
		p := filepath.Join(dir, n)
		must(os.WriteFile(p, b, 0o644))
		names = append(names, p)
	}
	p := func(b []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}) }
	switch format % 5 {
	case 0, 1: // a directory of PEM or DER files
		for i, d := range ders {
			if format%5 == 0 {
				write(fmt.Sprintf("f%d.pem", i), p(d))
			} else {
				write(fmt.Sprintf("f%d.der", i), d)
			}
		}
		return dir
	case 2: // one file
		var b bytes.Buffer
		for _, d := range ders {
			b.Write(p(d))
		}
		write("all.pem", b.Bytes())
		return names[0]
	case 3: // a list of files
		for i, d := range ders {
			write(fmt.Sprintf("f%d.der", i), d)
		}
		return strings.Join(names, ", ")
	}
	var b bytes.Buffer
	// other text and blocks of other types are passed over
	b.WriteString("some text\n")
	b.Write(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: []byte("1234567890")}))
	for _, d := range ders {
		b.Write(p(d))
	}
	write("all.pem", b.Bytes())
	return dir
}

func runT03(c *Ctx) {
	r := c.Rng("main")
	keys := []string{"k0", "k1", "k2", "k3", "k4", "k5"}
	for _, k := range keys {
		rsaKey(k)
	}
	t03Direct(c, r)
	if c.Violated() {
		return
	}
	t03Suppressed(c, r)
	t03Server(c, r)
	t03Client(c, r)
}

func (k *t03Case) sig(how string, ok bool, reason string) string {
	return fmt.Sprintf("%s/%d/%v/%s/%s", how, k.depth, ok, reason, strings.Join(k.why, "+"))
}

func t03Direct(c *Ctx, r *mrand.Rand) {
	var wg sync.WaitGroup
	var accepted, refused atomic.Int64
	for g := 0; g < 8; g++ {
		rr := mrand.New(mrand.NewSource(r.Int63()))
		dir := filepath.Join(c.Dir, fmt.Sprintf("direct%d", g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.N(250, 5000) && !c.Violated(); i++ {
				k := genT03(rr)
				if rr.Intn(3) == 0 {
					k.host = pick(rr, "srv.example.com", "SRV.Example.com", "a.srv.example.com", "example.com", "10.1.2.3", "::1", "localhost")
					k.dns = pick(rr, []string{"srv.example.com"}, []string{"*.example.com"}, []string{"x", "srv.example.com", "example.com"}, []string{"*.com"}, []string{"10.1.2.3"}, nil)
					k.ips = pick(rr, []string{"10.1.2.3"}, []string{"::1"}, nil)
				}
				m := k.make(dir, rsaKey("k1"), clientURI)
				ok, reason := k.accept()
				use := []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
				host := k.host
				if k.client {
					use[0] = x509.ExtKeyUsageClientAuth
					host = ""
				} else if rr.Intn(3) == 0 {
					use = nil // the default
				}
				err := ua.ValidateCertificate(m.chain, use, host, m.trusted, m.trustedCRL, m.issuers, m.issuersCRL, m.rejected, false, false, false, false)
				c.Eval(k.sig("direct", ok, reason))
				if err == nil {
					accepted.Add(1)
				} else {
					refused.Add(1)
				}
				switch {
				case ok && m.selfSuppliedRoot:
				case ok && err != nil:
					c.Violate("direct-refused", "a certificate that meets all conditions is refused (%v): %v", err, k)
				case !ok && err == nil:
					c.Violate("direct-accepted/"+reason, "a certificate is accepted although: %s (%v)", reason, k)
				}
				if _, serr := os.Stat(m.rejected); err == nil && serr == nil {
					c.Violate("direct-rejected", "an accepted certificate is stored among the rejected ones (%v)", k)
				}
			}
		}()
	}
	wg.Wait()
	c.Count("direct_accepted", int(accepted.Load()))
	c.Count("direct_refused", int(refused.Load()))
}

// t03Suppressed: a suppressed condition is ignored, the others are not.
func t03Suppressed(c *Ctx, r *mrand.Rand) {
	dir := filepath.Join(c.Dir, "suppressed")
	for i := 0; i < c.N(400, 6000) && !c.Violated(); i++ {
		k := genT03(r)
		k.client = false
		if k.eku == "client" {
			k.eku = "both"
		}
		var f [4]bool // host, time, chain, revocation
		for n := 1 + r.Intn(2); n > 0; n-- {
			f[r.Intn(4)] = true
		}
		m := k.make(dir, rsaKey("k1"), clientURI)
		q := *k
		if f[0] {
			q.dns, q.ips, q.host = []string{"h"}, nil, "h"
		}
		if f[1] {
			q.window = "ok"
		}
		if f[3] {
			for i := range q.ca {
				switch q.ca[i].crl {
				case crlNone, crlExpired, crlExpRev, crlImpClean:
					q.ca[i].crl = crlClean
				}
			}
		}
		ok, reason := q.accept()
		judgeOK := true
		if f[1] { // the time of the issuers is then that of the leaf
			for _, ca := range k.cas() {
				if ca.window != "ok" || k.window != "ok" {
					judgeOK = false
				}
			}
			if strings.HasPrefix(reason, "issuer ") {
				continue
			}
		}
		if f[2] {
			// whatever the chain is, the leaf alone must be right
			q.depth, q.leafTrusted, q.forged = 1, true, false
			ok, reason = q.accept()
			judgeOK = k.depth == 1
		}
		err := ua.ValidateCertificate(m.chain, nil, k.host, m.trusted, m.trustedCRL, m.issuers, m.issuersCRL, "", f[0], f[1], f[2], f[3])
		c.Eval(k.sig(fmt.Sprintf("suppressed%v", f), ok, reason))
		switch {
		case ok && err != nil && judgeOK && !m.selfSuppliedRoot:
			c.Violate("suppressed-refused", "with %v suppressed (host, time, chain, revocation) a certificate is refused (%v): %v", f, err, k)
		case !ok && err == nil:
			c.Violate("suppressed-accepted/"+reason, "with %v suppressed (host, time, chain, revocation) a certificate is accepted although: %s (%v)", f, reason, k)
		}
	}
}

// t03Server: an independent client connects to a server with a trust list.
func t03Server(c *Ctx, r *mrand.Rand) {
	dir := filepath.Join(c.Dir, "srv")
	type paths struct{ t, tc, i, ic string }
	// the configuration is fixed, the files are not: all in directories
	p := paths{filepath.Join(dir, "trusted"), filepath.Join(dir, "tcrl"), filepath.Join(dir, "issuers"), filepath.Join(dir, "icrl")}
	must(os.MkdirAll(dir, 0o755))
	w := newWorld(c, WorldOpts{NoDefault: true, Opts: []server.Option{server.WithAnonymousIdentity(true), server.WithSecurityPolicyNone(true), server.WithTrustedCertificatesPaths(p.t, p.tc), server.WithIssuerCertificatesPaths(p.i, p.ic), server.WithRejectedCertificatesPath(filepath.Join(dir, "rejected"))}})
	defer w.Srv.Close()
	acc, ref := 0, 0
	for i := 0; i < c.N(150, 2500) && !c.Violated(); i++ {
		k := genT03(r)
		k.client = true
		k.format = 5 * r.Intn(3) // directories
		if k.eku == "server" && r.Intn(2) == 0 {
			k.eku = "client"
		}
		m := k.make(dir, w.ClientKey, clientURI)
		for _, d := range []string{p.t, p.tc, p.i, p.ic} {
			must(os.MkdirAll(d, 0o755))
		}
		ok, reason := k.accept()
		x := allModes()[1+r.Intn(10)]
		cl, err := w.Raw(x.p, x.m, func(cf *raw.Config) { cf.Cert = m.der(); cf.Timeout = 20 * time.Second })
		c.Eval(k.sig("server", ok, reason))
		if err == nil {
			_, err = cl.CreateSession("t03", 60000)
			if err == nil {
				err = cl.ActivateAnonymous()
			}
			if err == nil {
				_, err = cl.Do(readReq(ua.VariableIDServerServerStatusState))
			}
			if !ok {
				c.Violate("server-accepted/"+reason, "%v: the server opens a channel for a certificate although: %s (%v)", x, reason, k)
			} else if err != nil {
				c.Violate("server-service", "%v: a session fails: %v (%v)", x, err, k)
			}
			cl.Close()
			acc++
			continue
		}
		ref++
		if ok && !m.selfSuppliedRoot {
			c.Violate("server-refused", "%v: the server refuses a certificate that meets all conditions: %v (%v)", x, err, k)
		}
		if ne, isNet := err.(net.Error); isNet && ne.Timeout() {
			c.Violate("server-silent", "%v: the server neither opens the channel nor closes the connection (%v)", x, k)
		}
	}
	c.Count("server_accepted", acc)
	c.Count("server_refused", ref)
	// a policy without security, or security without a policy
	for i := 0; i < 40 && !c.Violated(); i++ {
		pol := raw.Policies[r.Intn(len(raw.Policies))]
		other := t03Other()
		conn, err := raw.DialTCP(w.URL, 10*time.Second)
		must(err)
		ch := &raw.Chan{Conn: conn, Policy: pol, Mode: raw.ModeSignAndEncrypt, LocalKey: rsaKey("k4"), LocalCert: appCert("x", "urn:x", rsaKey("k4")).Raw, RemoteCert: w.ServerCert}
		if i%2 == 0 {
			ch.LocalKey, ch.LocalCert = rsaKey("k5"), other.Raw
		}
		mode := []int{raw.ModeNone, 0, 4, 7}[r.Intn(4)]
		conn.SetDeadline(time.Now().Add(20 * time.Second))
		must(ch.Hello(w.URL, 65536, 65536, 0, 0))
		f, err := ch.SealAsym(1, 1, raw.MustEncode(&ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1}, SecurityMode: ua.MessageSecurityMode(mode), ClientNonce: ua.ByteString(ch.NewNonce()), RequestedLifetime: 600000}))
		must(err)
		conn.Write(f)
		b, err := raw.ReadFrame(conn)
		c.Eval(fmt.Sprintf("mode/%s/%d", pol.Name, mode))
		if err == nil && string(b[:3]) == "OPN" {
			c.Violate("server-mode", "a channel with policy %s and mode %d is opened", pol.Name, mode)
		}
		conn.Close()
	}
}

// t03Client: the library's client connects to an independent server.
func t03Client(c *Ctx, r *mrand.Rand) {
	cert := appCert("client", clientURI, rsaKey("k1"))
	acc, ref := 0, 0
	for i := 0; i < c.N(150, 2500) && !c.Violated(); i++ {
		k := genT03(r)
		k.client = false
		dir := filepath.Join(c.Dir, "cli")
		if k.eku == "client" && r.Intn(2) == 0 {
			k.eku = "server"
		}
		m := k.make(dir, rsaKey("k0"), "urn:raw:server")
		ok, reason := k.accept()
		s, err := raw.NewServer(rsaKey("k0"), m.der())
		must(err)
		var secure atomic.Int64
		nocert := r.Intn(12) == 0
		s.OnOpen = func(sc *raw.ServerConn, o *raw.Opened, q *ua.OpenSecureChannelRequest, res *ua.OpenSecureChannelResponse) bool {
			if o.PolicyURI != raw.None.URI {
				secure.Add(1)
			}
			return false
		}
		if nocert {
			// the endpoints carry no certificate
			s.EndpointCert = []byte{}
			ok, reason = false, "no certificate"
		}
		go s.Serve()
		url := strings.Replace(s.URL, "127.0.0.1", k.host, 1)
		x := allModes()[1+r.Intn(10)]
		opts := []client.Option{client.WithSecurityPolicyURI(x.p.URI, ua.MessageSecurityMode(x.m)), client.WithClientCertificate(cert.Raw, rsaKey("k1")), client.WithIssuerCertificatesPaths(m.issuers, m.issuersCRL), client.WithRejectedCertificatesPath(m.rejected)}
		opts = append(opts, client.WithTrustedCertificatesPaths(m.trusted, m.trustedCRL))
		ctx, cancel := context.WithTimeout(bg(), 30*time.Second)
		cl, err := client.Dial(ctx, url, opts...)
		c.Eval(k.sig("client", ok, reason))
		if err == nil {
			acc++
			_, rerr := cl.Read(ctx, readReq(ua.VariableIDServerServerStatusState))
			if !ok {
				c.Violate("client-accepted/"+reason, "%v: the client connects to a server although: %s (%v)", x, reason, k)
			} else if rerr != nil {
				c.Violate("client-service", "%v: reading fails: %v", x, rerr)
			}
			cl.Close(ctx)
		} else {
			ref++
			switch {
			case ok && !m.selfSuppliedRoot:
				c.Violate("client-refused", "%v: the client refuses a server whose certificate meets all conditions: %v (%v)", x, err, k)
			case !ok && secure.Load() > 0:
				c.Violate("client-opened/"+reason, "%v: the client opened a channel to a server it must refuse: %s (%v)", x, reason, k)
			case errors.Is(err, context.DeadlineExceeded):
				c.Violate("client-hangs", "%v: the client waits for a server it must refuse (%v)", x, k)
			}
		}
		cancel()
		s.Close()
	}
	c.Count("client_accepted", acc)
	c.Count("client_refused", ref)
}
