// Package raw is an independent implementation of OPC UA TCP and secure conversation, used by the monitors to
// speak to the library as a peer with full control over every byte.
package raw

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"errors"
	"hash"
)

// Policy is one security policy.
type Policy struct {
	Name     string
	URI      string
	SigURI   string
	newHash  func() hash.Hash // of HMAC and PRF
	SymSig   int
	SigKey   int
	EncKey   int
	Nonce    int
	pss      bool
	signHash crypto.Hash
	encPKCS1 bool
	oaepHash func() hash.Hash
	AsymOver int
	EncURI   string
}

const base = "http://opcfoundation.org/UA/SecurityPolicy#"

// None is the null policy.
var None = &Policy{Name: "None", URI: base + "None"}

// Policies lists the secured policies.
var Policies = []*Policy{
	{Name: "Basic128Rsa15", URI: base + "Basic128Rsa15", SigURI: "http://www.w3.org/2000/09/xmldsig#rsa-sha1", EncURI: "http://www.w3.org/2001/04/xmlenc#rsa-1_5", newHash: sha1.New, SymSig: 20, SigKey: 16, EncKey: 16, Nonce: 16, signHash: crypto.SHA1, encPKCS1: true, AsymOver: 11},
	{Name: "Basic256", URI: base + "Basic256", SigURI: "http://www.w3.org/2000/09/xmldsig#rsa-sha1", EncURI: "http://www.w3.org/2001/04/xmlenc#rsa-oaep", newHash: sha1.New, SymSig: 20, SigKey: 24, EncKey: 32, Nonce: 32, signHash: crypto.SHA1, oaepHash: sha1.New, AsymOver: 42},
	{Name: "Basic256Sha256", URI: base + "Basic256Sha256", SigURI: "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", EncURI: "http://www.w3.org/2001/04/xmlenc#rsa-oaep", newHash: sha256.New, SymSig: 32, SigKey: 32, EncKey: 32, Nonce: 32, signHash: crypto.SHA256, oaepHash: sha1.New, AsymOver: 42},
	{Name: "Aes128Sha256RsaOaep", URI: base + "Aes128_Sha256_RsaOaep", SigURI: "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", EncURI: "http://www.w3.org/2001/04/xmlenc#rsa-oaep", newHash: sha256.New, SymSig: 32, SigKey: 32, EncKey: 16, Nonce: 32, signHash: crypto.SHA256, oaepHash: sha1.New, AsymOver: 42},
	{Name: "Aes256Sha256RsaPss", URI: base + "Aes256_Sha256_RsaPss", SigURI: "http://opcfoundation.org/UA/security/rsa-pss-sha2-256", EncURI: "http://opcfoundation.org/UA/security/rsa-oaep-sha2-256", newHash: sha256.New, SymSig: 32, SigKey: 32, EncKey: 32, Nonce: 32, pss: true, signHash: crypto.SHA256, oaepHash: sha256.New, AsymOver: 66},
}

// PolicyByURI finds a policy.
func PolicyByURI(uri string) *Policy {
	if uri == None.URI {
		return None
	}
	for _, p := range Policies {
		if p.URI == uri {
			return p
		}
	}
	return nil
}

func (p *Policy) digest(b []byte) []byte {
	h := p.signHash.New()
	h.Write(b)
	return h.Sum(nil)
}

// Sign signs asymmetrically.
func (p *Policy) Sign(k *rsa.PrivateKey, b []byte) []byte {
	var s []byte
	var err error
	if p.pss {
		s, err = rsa.SignPSS(rand.Reader, k, p.signHash, p.digest(b), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	} else {
		s, err = rsa.SignPKCS1v15(rand.Reader, k, p.signHash, p.digest(b))
	}
	if err != nil {
		panic(err)
	}
	return s
}

// Verify verifies an asymmetric signature.
func (p *Policy) Verify(k *rsa.PublicKey, b, s []byte) error {
	if p.pss {
		return rsa.VerifyPSS(k, p.signHash, p.digest(b), s, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	}
	return rsa.VerifyPKCS1v15(k, p.signHash, p.digest(b), s)
}

// Encrypt encrypts block by block.
func (p *Policy) Encrypt(k *rsa.PublicKey, b []byte) ([]byte, error) {
	n := k.Size() - p.AsymOver
	var out []byte
	for len(b) > 0 {
		m := n
		if m > len(b) {
			m = len(b)
		}
		var c []byte
		var err error
		if p.encPKCS1 {
			c, err = rsa.EncryptPKCS1v15(rand.Reader, k, b[:m])
		} else {
			c, err = rsa.EncryptOAEP(p.oaepHash(), rand.Reader, k, b[:m], nil)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, c...)
		b = b[m:]
	}
	return out, nil
}

// Decrypt decrypts block by block.
func (p *Policy) Decrypt(k *rsa.PrivateKey, b []byte) ([]byte, error) {
	if len(b)%k.Size() != 0 {
		return nil, errors.New("cipher text length")
	}
	var out []byte
	for len(b) > 0 {
		var c []byte
		var err error
		if p.encPKCS1 {
			c, err = rsa.DecryptPKCS1v15(rand.Reader, k, b[:k.Size()])
		} else {
			c, err = rsa.DecryptOAEP(p.oaepHash(), rand.Reader, k, b[:k.Size()], nil)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, c...)
		b = b[k.Size():]
	}
	return out, nil
}

// Keys is one direction's symmetric keys.
type Keys struct {
	Sig, Enc, IV []byte
}

// Derive computes keys: secret/seed per OPC UA part 6 6.7.5.
func (p *Policy) Derive(secret, seed []byte) *Keys {
	n := p.SigKey + p.EncKey + 16
	mac := func(parts ...[]byte) []byte {
		h := hmac.New(p.newHash, secret)
		for _, x := range parts {
			h.Write(x)
		}
		return h.Sum(nil)
	}
	var out []byte
	a := seed
	for len(out) < n {
		a = mac(a)
		out = append(out, mac(a, seed)...)
	}
	return &Keys{out[:p.SigKey], out[p.SigKey : p.SigKey+p.EncKey], out[p.SigKey+p.EncKey : n]}
}

// MAC computes the symmetric signature.
func (p *Policy) MAC(k *Keys, b []byte) []byte {
	h := hmac.New(p.newHash, k.Sig)
	h.Write(b)
	return h.Sum(nil)
}

func (k *Keys) crypt(b []byte, enc bool) []byte {
	blk, err := aes.NewCipher(k.Enc)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(b))
	if enc {
		cipher.NewCBCEncrypter(blk, k.IV).CryptBlocks(out, b)
	} else {
		cipher.NewCBCDecrypter(blk, k.IV).CryptBlocks(out, b)
	}
	return out
}

// Named policies.
var (
	Basic256Sha256 = Policies[2]
	Aes256         = Policies[4]
)
