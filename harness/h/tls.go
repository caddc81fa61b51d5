package h

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"sync"
	"time"
)

var ca struct {
	once sync.Once
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

// TrustCA creates a certificate authority trusted by this process, and
// returns its certificate in PEM form.
func TrustCA() []byte {
	ca.once.Do(func() {
		ca.cert, ca.key, ca.pem = newCA("verif root")
		f, err := os.CreateTemp("", "sojuverif-ca-*.pem")
		Must(err)
		f.Write(ca.pem)
		f.Close()
		os.Setenv("SSL_CERT_FILE", f.Name())
		os.Setenv("SSL_CERT_DIR", "/nonexistent")
		_, err = x509.SystemCertPool()
		Must(err)
		os.Remove(f.Name())
	})
	return ca.pem
}

func newCA(name string) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	Must(err)
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	Must(err)
	cert, err := x509.ParseCertificate(der)
	Must(err)
	return cert, key, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

// CertOpts describes a server certificate.
type CertOpts struct {
	Hosts     []string
	Untrusted bool // signed by an authority nobody trusts
	Expired   bool
}

// NewCert creates a server certificate.
func NewCert(o CertOpts) tls.Certificate {
	TrustCA()
	cacert, cakey := ca.cert, ca.key
	if o.Untrusted {
		cacert, cakey, _ = newCA("unknown root")
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	Must(err)
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "server"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	if o.Expired {
		tpl.NotAfter = time.Now().Add(-time.Minute)
	}
	for _, h := range o.Hosts {
		if ip := net.ParseIP(h); ip != nil {
			tpl.IPAddresses = append(tpl.IPAddresses, ip)
		} else {
			tpl.DNSNames = append(tpl.DNSNames, h)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, cacert, &key.PublicKey, cakey)
	Must(err)
	return tls.Certificate{Certificate: [][]byte{der, cacert.Raw}, PrivateKey: key}
}
