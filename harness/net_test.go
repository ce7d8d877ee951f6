package zzverif

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// testCA issues certificates for loopback.
type testCA struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pool *x509.CertPool
	sn   int64
}

func newCA(name string) *testCA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	p := x509.NewCertPool()
	p.AddCert(c)
	return &testCA{cert: c, key: key, pool: p, sn: 1}
}

func (ca *testCA) issue(names ...string) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	ca.sn++
	t := &x509.Certificate{SerialNumber: big.NewInt(ca.sn), Subject: pkix.Name{CommonName: "leaf"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	for _, n := range append(names, "127.0.0.1", "::1", "localhost") {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, n)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.cert, key.Public(), ca.key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// files writes the CA and a certificate with its key into dir.
func (ca *testCA) files(dir, name string, c tls.Certificate) (caF, crtF, keyF string) {
	w := func(p, typ string, b []byte) string {
		p = filepath.Join(dir, p)
		if err := os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}), 0600); err != nil {
			panic(err)
		}
		return p
	}
	k, err := x509.MarshalECPrivateKey(c.PrivateKey.(*ecdsa.PrivateKey))
	if err != nil {
		panic(err)
	}
	return w(name+"-ca.pem", "CERTIFICATE", ca.cert.Raw), w(name+".pem", "CERTIFICATE", c.Certificate[0]), w(name+".key", "EC PRIVATE KEY", k)
}

var portMu sync.Mutex
var portsUsed = map[int]bool{}

// freePort finds a port free for both TCP and UDP on loopback.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		p := l.Addr().(*net.TCPAddr).Port
		u, err := net.ListenPacket("udp", l.Addr().String())
		l.Close()
		if err != nil {
			continue
		}
		u.Close()
		if portsUsed[p] {
			continue
		}
		portsUsed[p] = true
		return p
	}
}

func newQuietLog() *log.Logger { return log.New(io.Discard, "", 0) }
