From eed71f1388e8b13951faa7f3b486559bf8320de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 01/17] fix: matchHost must not panic on an empty host name or
 pattern

An empty HELO name (or an empty quoted pattern) indexed position -1.
---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index e3f9f72..dbab0ce 100644
--- a/rules.go
+++ b/rules.go
@@ -349,7 +349,7 @@ func matchAddress(addr string, pat string) bool {
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
 	host = strings.ToLower(host)
-	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
+	if strings.HasSuffix(host, ".") && !strings.HasSuffix(pat, ".") {
 		host = host[:len(host)-1]
 	}
 	if host == pat || "."+host == pat {
-- 
2.43.0


From bfa9666abe9fc9f9cce66102e8663192a38afc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 02/17] fix: an empty quoted argument must not panic when its
 rule is evaluated

from "" and friends parse, so evaluating them must work; the empty
string is a plain pattern.
---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index dbab0ce..8f6857f 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
-- 
2.43.0


From e742792f9db6c6dc370e1ee99957678a9509fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 03/17] fix: the address attribute 'bad' is
 noat,quoted,unqualified,garbage as documented

It included route and left out quoted, the reverse of what doc.go says
(and of what the standard rules, which ask for 'bad,route', assume).
---
 rnodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rnodes.go b/rnodes.go
index bd0c865..3d893f7 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -97,7 +97,7 @@ const (
 	oFrom
 
 	// merged bitmaps
-	oBad = oUnqualified | oRoute | oNoat | oGarbage
+	oBad = oUnqualified | oQuoted | oNoat | oGarbage
 	oIp  = oBareip | oProperip
 	oAny = oHost | oEhlo | oFrom
 )
-- 
2.43.0


From 8e3bcd0ce6b66b0ce703a8ed773b66e9731d7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 04/17] fix: helo-has myip/remip/otherip must compare IP
 addresses, not strings

An IPv6 client giving its own address in a different but equivalent form
was reported as using somebody else's IP address.
---
 rules.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rules.go b/rules.go
index 8f6857f..c4d0113 100644
--- a/rules.go
+++ b/rules.go
@@ -178,7 +178,7 @@ func dnsGetter(c *Context) (o Option) {
 }
 
 func heloGetter(c *Context) (o Option) {
-	var hip string
+	var hip net.IP
 	if c.helocmd == smtpd.HELO {
 		o |= oHelo
 	} else {
@@ -199,24 +199,28 @@ func heloGetter(c *Context) (o Option) {
 	if idx1 == -1 && idx2 == -1 {
 		o |= oNodots
 	}
-	if net.ParseIP(hn) != nil {
+	if ip := net.ParseIP(hn); ip != nil {
 		o |= oBareip
-		hip = hn
+		hip = ip
 	}
 
 	if len(hn) > 2 && hn[0] == '[' && hn[len(hn)-1] == ']' {
 		t := hn[1 : len(hn)-1]
-		if net.ParseIP(t) != nil {
-			hip = t
+		if ip := net.ParseIP(t); ip != nil {
+			hip = ip
 			o |= oProperip
 		}
 	}
+	// We compare addresses instead of strings because the client may
+	// have written an IPv6 address in any of its valid forms.
 	switch {
-	case hip == c.trans.rip:
+	case hip == nil:
+		// not an IP address.
+	case hip.Equal(net.ParseIP(c.trans.rip)):
 		o |= oRemip
-	case hip == c.trans.lip:
+	case hip.Equal(net.ParseIP(c.trans.lip)):
 		o |= oMyip
-	case hip != "":
+	default:
 		o |= oOtherip
 	}
 	return
-- 
2.43.0


From 72bb3b04c03de3bcb427129ac88c4bdd8df98cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 05/17] fix: honour the last line of a pattern file when it has
 no newline

readList() silently dropped it; a one-line file without a final newline
counted as empty and so disabled its rule.
---
 sinksmtp.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..6a87f0f 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,19 +89,18 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				return a, nil
-			}
+		if err != nil && err != io.EOF {
 			return a, err
 		}
+		// At EOF we may still have a last line without a newline.
 		line = strings.TrimSpace(line)
-		if line == "" || line[0] == '#' {
-			continue
+		if line != "" && line[0] != '#' {
+			line = strings.ToLower(line)
+			a = append(a, line)
+		}
+		if err == io.EOF {
+			return a, nil
 		}
-
-		line = strings.ToLower(line)
-		a = append(a, line)
 	}
 	// Cannot be reached; for loop has no breaks.
 }
-- 
2.43.0


From d21201c48d97faaddc5696d59d52b8bf6a2da3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 06/17] fix: honour the last line of a -conncfg file when it
 has no newline

---
 conncfg.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..3b173cc 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,12 +60,13 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
+		// At EOF we may still have a last line without a newline.
+		if err == io.EOF && line == "" {
+			break
+		}
 		lnum++
 
 		line = strings.TrimSpace(line)
-- 
2.43.0


From 15c4311d86185bf7bb272e94e46eb54b35742e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:53 +0000
Subject: [PATCH 07/17] fix: a rules file that includes itself is an error, not
 endless recursion

---
 rparse.go   | 10 ++++++++--
 sinksmtp.go | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/rparse.go b/rparse.go
index 17c626c..d2bab51 100644
--- a/rparse.go
+++ b/rparse.go
@@ -54,6 +54,7 @@ type parser struct {
 	l       *lexer
 	curtok  item
 	currule *Rule
+	chain   []string // the rule files being included, ourselves last
 }
 
 // consume the current token and advance to the next one
@@ -658,7 +659,7 @@ func (p *parser) pInclude() ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rules, err := loadRules(fname)
+	rules, err := loadIncluded(fname, p.chain)
 	if err != nil {
 		return rules, p.lineError(fmt.Sprintf("while including '%s': %s", fname, err))
 	}
@@ -697,8 +698,13 @@ func (p *parser) pFile() (rules []*Rule, err error) {
 // Parse an input string into a set of rules and a possible error.
 // If there is an error, you must ignore the rules.
 func Parse(input string) (rules []*Rule, err error) {
+	return parseRules(input, nil)
+}
+
+// parseRules is Parse for the contents of the last file in chain.
+func parseRules(input string, chain []string) (rules []*Rule, err error) {
 	l := lex(input)
-	p := &parser{l: l}
+	p := &parser{l: l, chain: chain}
 	// we must prime the current token with the first token in the
 	// file.
 	p.curtok = l.nextItem()
diff --git a/sinksmtp.go b/sinksmtp.go
index 6a87f0f..0897637 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -132,6 +132,19 @@ func loadList(fname string) []string {
 // ----
 // Load a|the rule file. We assume filename is non-empty.
 func loadRules(fname string) ([]*Rule, error) {
+	return loadIncluded(fname, nil)
+}
+
+// loadIncluded loads a rule file that is being included through the files
+// in chain, outermost first. A file that includes itself, directly or not,
+// is an error; otherwise we would go on including forever.
+func loadIncluded(fname string, chain []string) ([]*Rule, error) {
+	for _, f := range chain {
+		if f == fname {
+			return nil, fmt.Errorf("file includes itself")
+		}
+	}
+	chain = append(chain[:len(chain):len(chain)], fname)
 	fp, err := os.Open(fname)
 	if err != nil {
 		return nil, err
@@ -141,7 +154,7 @@ func loadRules(fname string) ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rl, err := Parse(string(b))
+	rl, err := parseRules(string(b), chain)
 	if err != nil {
 		return nil, fmt.Errorf("rules parsing error %v", err)
 	}
-- 
2.43.0


From e93d9e43d4d1685f28cc7efa9f668909c8d4e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 08/17] fix: connections must not append their rules to the
 shared base rules in place

---
 sinksmtp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 0897637..9f441f8 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -167,7 +167,10 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 		return baserules, nil
 	}
 	rules, err := loadRules(fname)
-	return append(baserules, rules...), err
+	// The base rules are shared by all connections, so we must not
+	// append to them in place.
+	n := len(baserules)
+	return append(baserules[:n:n], rules...), err
 }
 
 // Accumulate the set of rules for this connection from our base rules
-- 
2.43.0


From b3a010b92b0816de1c6b31c8d604ece93ac61ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:00 +0000
Subject: [PATCH 09/17] fix: a message that could not be completely written
 must be tempfailed

---
 sinksmtp.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 9f441f8..ce9516e 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -683,9 +683,17 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 			warnf("error writing message file: %s\n", err)
 		}
 		_ = fp.Sync()
-		err = fp.Close()
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+		}
+		if err == nil {
+			err = cerr
+		}
 		if err != nil {
-			warnf("error closing message file: %s\n", err)
+			// We must not leave a damaged file behind, because
+			// it would make the next attempt look saved.
+			os.Remove(tgt)
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 4adeff9e172bdddc24fc0e57ee1a3903a06c25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:34 +0000
Subject: [PATCH 10/17] fix: make-yakker must hold whatever happens later in
 the session

---
 sinksmtp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index ce9516e..93a3fd4 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -445,6 +445,7 @@ type smtpTransaction struct {
 	lastamsg string
 
 	lastresgood bool // last result from decider()
+	makeyakker  bool // some rule's make-yakker has hit
 }
 
 // returns overall hash and body-of-message hash. The latter may not
@@ -806,6 +807,11 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if sd := c.withprops["savedir"]; sd != "" {
 		c.trans.savedir = sd
 	}
+	// make-yakker is also sticky; it applies no matter what happens
+	// in the rest of the session.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.trans.makeyakker = true
+	}
 	// rule notes are deliberately logged every time they hit.
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
@@ -1210,9 +1216,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.makeyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From eb7e0824237690e72f280c653e20057dd8aef130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 11/17] fix: a rule note must not crash sessions that are not
 logged

---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 93a3fd4..66761ed 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -816,7 +816,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From d6424dd82de8dcd0b81502d711755dd4636aec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 12/17] fix: SBL hits of clients without an IPv4 address must
 not crash

---
 sinksmtp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index 66761ed..0b00b1d 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -709,6 +709,10 @@ func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
 	// since we know this hit, we can omit a lot of checks.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		// Not an IPv4 address; the hit was a 'dbl' one.
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From 6334a12353548f1a8327ceda4485328cbe9a7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:20 +0000
Subject: [PATCH 13/17] fix: 'dbl host' must not cut a letter off a host name
 without a final dot

---
 rnodes.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rnodes.go b/rnodes.go
index 3d893f7..32692a5 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -452,14 +452,15 @@ func (d *DblNode) Eval(c *Context) (r Result) {
 	}
 	if (d.src & oHost) == oHost {
 		// DNS names have a trailing '.', which we must remove.
+		// (Names from the hosts file may not have one.)
 		for _, s := range c.trans.rdns.verified {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.nofwd {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.inconsist {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 	}
 	if (d.src&oFrom) == oFrom && c.from != "" {
-- 
2.43.0


From e25c692bc5a92c5aa4b766949e18016cf4ea2770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:40 +0000
Subject: [PATCH 14/17] fix: 'ip' must not match a link-local IPv6 client with
 everything that is no address

---
 rules.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index c4d0113..3ba5d0e 100644
--- a/rules.go
+++ b/rules.go
@@ -368,6 +368,15 @@ func matchHost(host string, pat string) bool {
 	return false
 }
 
+// parseConnIP parses the IP address of one end of a connection. This may
+// have an IPv6 zone, eg 'fe80::1%eth0', which net.ParseIP() does not accept.
+func parseConnIP(s string) net.IP {
+	if idx := strings.IndexByte(s, '%'); idx != -1 {
+		s = s[:idx]
+	}
+	return net.ParseIP(s)
+}
+
 // match an IP against a CIDR or a plain IP.
 // unfortunately we can't do ParseIP once and pass the result in because
 // of static types.
@@ -378,9 +387,10 @@ func matchIp(rip string, cidr string) bool {
 	// example filling in leading zeroes in an IPv4 address's octets
 	// (yes people do this sometimes). ParseIP() has the side effect
 	// of canonicalizing all of that for us.
-	ip := net.ParseIP(rip)
+	ip := parseConnIP(rip)
 	ip2 := net.ParseIP(cidr)
-	if ip.Equal(ip2) {
+	// An unset IP is Equal() to another one, so we must check.
+	if ip2 != nil && ip.Equal(ip2) {
 		return true
 	}
 	_, ipn, err := net.ParseCIDR(cidr)
-- 
2.43.0


From 79c3949059e0b4d4ba373a3f545e2b13cdd30a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:50 +0000
Subject: [PATCH 15/17] fix: helo-has remip/myip must recognise link-local IPv6
 addresses

---
 rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 3ba5d0e..43350c5 100644
--- a/rules.go
+++ b/rules.go
@@ -216,9 +216,9 @@ func heloGetter(c *Context) (o Option) {
 	switch {
 	case hip == nil:
 		// not an IP address.
-	case hip.Equal(net.ParseIP(c.trans.rip)):
+	case hip.Equal(parseConnIP(c.trans.rip)):
 		o |= oRemip
-	case hip.Equal(net.ParseIP(c.trans.lip)):
+	case hip.Equal(parseConnIP(c.trans.lip)):
 		o |= oMyip
 	default:
 		o |= oOtherip
-- 
2.43.0


From 1a2df8661bfce33d29cc4aed15be35a10f055919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:35 +0000
Subject: [PATCH 16/17] fix: -conncfg lines must not match link-local
 connections with everything that is no address

---
 conncfg.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 3b173cc..47de459 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -31,13 +31,14 @@ func (d *destMap) find(nc net.Conn) *perDest {
 	la := nc.LocalAddr()
 	lip, _, _ := net.SplitHostPort(la.String())
 	las := la.String()
-	ip := net.ParseIP(lip)
+	ip := parseConnIP(lip)
 
 	for _, de := range *d {
 		if de.local == "*" || de.local == las {
 			return de
 		}
-		if ip.Equal(net.ParseIP(de.local)) {
+		// An unset IP is Equal() to another one, so we must check.
+		if dip := net.ParseIP(de.local); dip != nil && ip.Equal(dip) {
 			return de
 		}
 		_, ipn, err := net.ParseCIDR(de.local)
-- 
2.43.0


From 7d6c113e109a6097c4a2c6347412c4b47497fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:44 +0000
Subject: [PATCH 17/17] fix: report clients that become yakkers through RSETs

A client whose count reached -dncount through a RSET in a session was
stalled from then on without any report: the end of the session only
looked for the exact count, and the do-nothing log missed clients
dropped for too many RSETs.
---
 sinksmtp.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 0b00b1d..f63f31a 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -906,7 +906,7 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	var convo *smtpd.Conn
 	var logger *smtpLogger
 	var l2 io.Writer
-	var gotsomewhere, stall, sesscounts bool
+	var gotsomewhere, stall, sesscounts, rsethit bool
 	var cfg smtpd.Config
 
 	defer nc.Close()
@@ -1111,6 +1111,10 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 					// implicitly adding the *last* failed
 					// attempt, the one that was RSET from.
 					cnt = yakkers.Add(trans.rip, yakTimeout)
+					// If this is what makes the client a
+					// yakker, we report it when the session
+					// ends without having gotten anywhere.
+					rsethit = rsethit || cnt == yakCount
 					// We're slightly generous with RSETs.
 					// This has no net effect unless this
 					// final attempt succeeds.
@@ -1120,6 +1124,7 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 						events.yakads.Add(1)
 						events.rsetdrops.Add(1)
 						writeLog(logger, "! %s added as a yakker at hit %d due to RSET\n", trans.rip, cnt)
+						yakLog(dnlog, trans, prefix, "added")
 						convo.TempfailMsg("Too many unsuccessful delivery attempts")
 						// this will implicitly close
 						// the connection.
@@ -1228,21 +1233,24 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 		// Don't repeatedly report that the same IP has been forced
 		// to be a yakker if we have multiple simultaneous connections
 		// from it.
-		if cnt != yakCount {
+		if cnt != yakCount || rsethit {
 			writeLog(logger, "! %s forced to be a yakker\n", trans.rip)
 			events.yakads.Add(1)
 			events.yakforces.Add(1)
 			yakLog(dnlog, trans, prefix, "force-set")
 		}
-	case !gotsomewhere && sesscounts:
-		cnt = yakkers.Add(trans.rip, yakTimeout)
+	case !gotsomewhere && (sesscounts || rsethit):
+		if sesscounts {
+			cnt = yakkers.Add(trans.rip, yakTimeout)
+		}
 		// See if this transaction has pushed the client over the
 		// edge to becoming a yakker. If so, report it to the SMTP
 		// log.
 		// We report yakker addition only once. This is safe even
 		// with multiple sessions happening at once because we know
 		// that *some* session will have exactly hit the yakker count.
-		if cnt == yakCount {
+		// It may have done so through a RSET instead of here.
+		if cnt == yakCount || rsethit {
 			writeLog(logger, "! %s added as a yakker at hit %d\n", trans.rip, cnt)
 			events.yakads.Add(1)
 			yakLog(dnlog, trans, prefix, "added")
-- 
2.43.0

