package x509

import "errors"

type Name struct{ CommonName string }

type ExtKeyUsage int

const (
	ExtKeyUsageAny ExtKeyUsage = iota
	ExtKeyUsageServerAuth
	ExtKeyUsageClientAuth
)

type Certificate struct {
	Subject  Name
	DNSNames []string
	// model: Chain is what must be among the intermediates; Bad fails always
	Bad   bool
	Needs *Certificate
}

type CertPool struct{ certs []*Certificate }

func NewCertPool() *CertPool               { return &CertPool{} }
func (p *CertPool) AddCert(c *Certificate) { p.certs = append(p.certs, c) }
func SystemCertPool() (*CertPool, error)   { return &CertPool{}, nil }

type VerifyOptions struct {
	DNSName       string
	Intermediates *CertPool
	Roots         *CertPool
	KeyUsages     []ExtKeyUsage
}

var errVerify = errors.New("x509: certificate signed by unknown authority")

func (c *Certificate) Verify(o VerifyOptions) ([][]*Certificate, error) {
	if c.Bad {
		return nil, errVerify
	}
	client := false
	for _, u := range o.KeyUsages {
		if u == ExtKeyUsageClientAuth || u == ExtKeyUsageAny {
			client = true
		}
	}
	if !client {
		return nil, errVerify
	}
	if o.DNSName != "" {
		found := c.Subject.CommonName == o.DNSName
		for _, n := range c.DNSNames {
			if n == o.DNSName {
				found = true
			}
		}
		if !found {
			return nil, errVerify
		}
	}
	if c.Needs != nil {
		ok := false
		if o.Intermediates != nil {
			for _, x := range o.Intermediates.certs {
				if x == c.Needs {
					ok = true
				}
			}
		}
		if !ok {
			return nil, errVerify
		}
	}
	return [][]*Certificate{{c}}, nil
}
