package main

// Demonstration support: DNS answers come from the file named by DEMO_DNS
// ("name TYPE value" lines; a value "!" is a server failure), everything else
// does not exist; no network is used.

import (
	"bufio"
	"context"
	"encoding/binary"
	"io"
	"net"
	"os"
	"strings"
)

func init() {
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
		a, b := net.Pipe()
		go demoDNS(b)
		return a, nil
	}}
}

func demoName(n string) []byte {
	var b []byte
	for _, l := range strings.Split(strings.TrimSuffix(n, "."), ".") {
		if l == "" {
			continue
		}
		b = append(b, byte(len(l)))
		b = append(b, l...)
	}
	return append(b, 0)
}

func demoDNS(c net.Conn) {
	defer c.Close()
	for {
		// a pipe is no packet connection: messages have a length prefix
		var lb [2]byte
		if _, err := io.ReadFull(c, lb[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(lb[:]))
		if _, err := io.ReadFull(c, q); err != nil || len(q) < 12 {
			return
		}
		i := 12
		var ls []string
		for i < len(q) && q[i] != 0 {
			ls = append(ls, string(q[i+1:i+1+int(q[i])]))
			i += 1 + int(q[i])
		}
		i++
		typ := binary.BigEndian.Uint16(q[i:])
		qend := i + 4
		name := strings.ToLower(strings.Join(ls, "."))
		tn := map[uint16]string{1: "A", 28: "AAAA", 12: "PTR", 15: "MX", 16: "TXT"}[typ]
		known, fail, n := false, false, 0
		var ans []byte
		if fp, err := os.Open(os.Getenv("DEMO_DNS")); err == nil {
			sc := bufio.NewScanner(fp)
			for sc.Scan() {
				f := strings.Fields(sc.Text())
				if len(f) < 3 || strings.TrimSuffix(f[0], ".") != name {
					continue
				}
				known = true
				if f[1] != tn && f[2] != "!" {
					continue
				}
				if f[2] == "!" {
					fail = true
					continue
				}
				var d []byte
				switch tn {
				case "A":
					d = net.ParseIP(f[2]).To4()
				case "AAAA":
					d = net.ParseIP(f[2]).To16()
				case "PTR":
					d = demoName(f[2])
				case "MX":
					d = append([]byte{0, 10}, demoName(f[2])...)
				case "TXT":
					t := strings.Join(f[2:], " ")
					d = append([]byte{byte(len(t))}, t...)
				}
				ans = append(ans, 0xc0, 12, 0, byte(typ), 0, 1, 0, 0, 0, 60, 0, byte(len(d)))
				ans = append(ans, d...)
				n++
			}
			fp.Close()
		}
		r := append([]byte{}, q[:2]...)
		rcode := byte(0)
		if fail {
			rcode = 2
		} else if !known {
			rcode = 3
		}
		r = append(r, 0x81, 0x80|rcode, 0, 1, 0, byte(n), 0, 0, 0, 0)
		r = append(r, q[12:qend]...)
		if rcode == 0 {
			r = append(r, ans...)
		}
		binary.BigEndian.PutUint16(lb[:], uint16(len(r)))
		c.Write(append(lb[:], r...))
	}
}
