package raw

import "crypto/x509"

// CertURI returns the application URI in a certificate.
func CertURI(der []byte) string {
	cs, err := x509.ParseCertificates(der)
	if err != nil || len(cs) == 0 || len(cs[0].URIs) == 0 {
		return ""
	}
	return cs[0].URIs[0].String()
}
