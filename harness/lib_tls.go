package main

import (
	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/crypto/x509"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzCert adds a client certificate of some kind to a TLS state and to the text
// recorded about it.
func zzCert(st *tls.ConnectionState, line *string) {
	inter := &x509.Certificate{}
	switch verif.Choose("cert", 7) {
	case 1: // verified by the TLS layer
		c := &x509.Certificate{Subject: x509.Name{CommonName: "cn.example"}}
		st.PeerCertificates = []*x509.Certificate{c}
		st.VerifiedChains = [][]*x509.Certificate{{c}}
		*line += " client-name 'cn.example' client-name-verified"
	case 2: // verifies only when we try
		st.PeerCertificates = []*x509.Certificate{{DNSNames: []string{"dns.example", "other"}}}
		*line += " client-name 'dns.example' client-name-verified"
	case 3: // verifies with the intermediate sent
		st.PeerCertificates = []*x509.Certificate{{Subject: x509.Name{CommonName: "cn.example"}, Needs: inter}, inter}
		*line += " client-name 'cn.example' client-name-verified"
	case 4: // does not verify
		st.PeerCertificates = []*x509.Certificate{{Subject: x509.Name{CommonName: "cn.example"}, DNSNames: []string{"dns.example"}, Bad: true}, inter}
		*line += " client-name 'cn.example'"
	case 5: // no names
		st.PeerCertificates = []*x509.Certificate{{Bad: true}}
		*line += " client-name '<no CN or DNS Names>'"
	case 6: // needs an intermediate that was not sent
		st.PeerCertificates = []*x509.Certificate{{Subject: x509.Name{CommonName: "cn.example"}, Needs: inter}}
		*line += " client-name 'cn.example'"
	}
}
