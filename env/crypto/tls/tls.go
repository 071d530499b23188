// Package tls models certificates and connection state.
package tls

import (
	"errors"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/x509"
	"github.com/siebenmann/sinksmtp/zz/env"
)

type Certificate struct {
	Certificate [][]byte
	ID          string
	Leaf        *x509.Certificate
}

type ClientAuthType int

const (
	NoClientCert ClientAuthType = iota
	RequestClientCert
	RequireAnyClientCert
	VerifyClientCertIfGiven
	RequireAndVerifyClientCert
)

const (
	VersionSSL30 = 0x0300
	VersionTLS10 = 0x0301
	VersionTLS11 = 0x0302
	VersionTLS12 = 0x0303
	VersionTLS13 = 0x0304
)

type Config struct {
	Certificates             []Certificate
	ClientAuth               ClientAuthType
	SessionTicketsDisabled   bool
	ServerName               string
	MinVersion               uint16
	MaxVersion               uint16
	CipherSuites             []uint16
	PreferServerCipherSuites bool
	InsecureSkipVerify       bool
	NextProtos               []string
	ClientCAs                *x509.CertPool
}

func (c *Config) Clone() *Config {
	if c == nil {
		return nil
	}
	n := *c
	return &n
}

type ConnectionState struct {
	Version           uint16
	HandshakeComplete bool
	CipherSuite       uint16
	ServerName        string
	PeerCertificates  []*x509.Certificate
	VerifiedChains    [][]*x509.Certificate
}

func (c ConnectionState) Verified() bool { return len(c.VerifiedChains) > 0 }

// LoadX509KeyPair succeeds when both files exist and their contents agree
// after the first word ("cert X", "key X").
func LoadX509KeyPair(certFile, keyFile string) (Certificate, error) {
	c, ok := read(certFile)
	if !ok {
		return Certificate{}, errors.New("open " + certFile + ": no such file or directory")
	}
	k, ok := read(keyFile)
	if !ok {
		return Certificate{}, errors.New("open " + keyFile + ": no such file or directory")
	}
	if !strings.HasPrefix(c, "cert ") || !strings.HasPrefix(k, "key ") || c[5:] != k[4:] {
		return Certificate{}, errors.New("tls: private key does not match public key")
	}
	return Certificate{ID: c[5:]}, nil
}

func read(f string) (string, bool) {
	h, err := env.OpenFile(f, 0)
	if err != nil {
		return "", false
	}
	h.Close()
	return env.Get(f)
}

func CipherSuiteName(id uint16) string { return "cipher" }
