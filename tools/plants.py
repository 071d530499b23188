#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the list below: patch.diff against
/repo's HEAD, the demonstration kit, demo.py and meta.json."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def plant(id, prop, needs, breaks, edits, demo):
    P.append((id, prop, needs, breaks, edits, demo))


# ---------------------------------------------------------------- the changes
plant("c01-dot-iter", "C01",
      "a sender domain of at least three labels and a pattern '@.x.y' naming a middle ancestor of it",
      "'@.example.com' no longer matches a@b.c.example.com, only the full domain and the top-level one are tried",
      [("rules.go", "\tidx := strings.IndexByte(s.s[s.p+1:], '.')", "\tidx := strings.LastIndexByte(s.s[s.p+1:], '.')")],
      '''
r = put("rules", "reject from @.example.com\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<u@example.com>") == 5, "the domain itself")
check(c.code("MAIL FROM:<u@mail.example.com>") == 5, "subdomain")
check(c.code("MAIL FROM:<u@a.mail.example.com>") == 5, "subdomain of a subdomain")
check(c.code("MAIL FROM:<u@badexample.com>") == 2, "other domain")
''')

plant("c02-strip-host", "C02",
      "a reverse DNS name (final dot) and a pattern '.b' where the host name is exactly b",
      "'.b' no longer matches the host b itself when the name has its final dot",
      [("rules.go", "\tif host == pat || \".\"+host == pat {", "\tif host == pat || (\".\"+host == pat && si.full()) {"),
       ("rules.go", "\tsi := &sDotIter{s: host}\n\tfor h := si.Next(); h", "\tfor h := si.Next(); h"),
       ("rules.go", "func matchHost(host string, pat string) bool {\n\thost = strings.ToLower(host)\n", "func matchHost(host string, pat string) bool {\n\thost = strings.ToLower(host)\n\tsi := &sDotIter{s: host}\n"),
       ("rules.go", "func (s *sDotIter) Next() string {", "// full is true if the name is not terminated by a dot.\nfunc (s *sDotIter) full() bool {\n\treturn !strings.HasSuffix(s.s, \".\")\n}\n\nfunc (s *sDotIter) Next() string {")],
      '''
r = put("rules", "@from reject host .mail.example.com\\n")
s = Server(exe, "-force-receive", "-r", r, dns="6.0.0.127.in-addr.arpa PTR mail.example.com\\nmail.example.com A 127.0.0.6\\n"
  "7.0.0.127.in-addr.arpa PTR a.mail.example.com\\na.mail.example.com A 127.0.0.7\\n")
for ip, want in ("127.0.0.6", 5), ("127.0.0.7", 5), ("127.0.0.8", 2):
    c = Client(s, ip)
    c.cmd("EHLO a.b")
    check(c.code("MAIL FROM:<u@example.com>") == want, ip)
''')

plant("c03-leading-quote", "C03",
      "an address whose only quote character is its first one",
      "an address that starts with a double quote is no longer 'quoted'",
      [("rules.go", "\tif idx3 != -1 && idx3 != lp {", "\tif idx3 > 0 && idx3 != lp {")],
      '''
r = put("rules", "reject from-has quoted with message QUOTED\\n")
s = Server(exe, "-force-receive", "-nostdrules", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check(c.code('MAIL FROM:<a"b@c.d>') == 5, "quote inside")
check(c.code('MAIL FROM:<"b@c.d>') == 5, "quote at the start")
check(c.code('MAIL FROM:<ab@c.d>') == 2, "no quote")
''')

plant("c04-dns-good", "C04",
      "a client with one verified name and one inconsistent or forward-less name",
      "'dns good' holds for clients whose other names are bad",
      [("rules.go", "\tif o == oExists {", "\tif o&oExists != 0 && o&oNofwd == 0 {")],
      '''
r = put("rules", "@helo accept dns good\\n@helo reject all\\n")
s = Server(exe, "-force-receive", "-r", r, dns="5.0.0.127.in-addr.arpa PTR a.example.com\\na.example.com A 127.0.0.5\\n"
  "5.0.0.127.in-addr.arpa PTR b.example.com\\nb.example.com A 127.0.0.9\\n"
  "6.0.0.127.in-addr.arpa PTR c.example.com\\nc.example.com A 127.0.0.6\\n")
check(Client(s, "127.0.0.6").code("EHLO a.b") == 2, "all good")
check(Client(s, "127.0.0.5").code("EHLO a.b") == 5, "an inconsistent name")
''')

plant("c05-or-list", "C05",
      "a rule with two operations after an 'or'",
      "'a or b c' is read as 'a or (b c)' instead of '(a or b) c'",
      [("rparse.go", "\texp.left = er\n\tp.consume()\n\ter, err = p.pOrl()", "\texp.left = er\n\tp.consume()\n\ter, err = p.pAndl()")],
      '''
r = put("rules", "reject from a@b.c or from d@e.f not helo good.example.com\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO good.example.com")
check(c.code("MAIL FROM:<a@b.c>") == 2, "good helo")
c = Client(s)
c.cmd("EHLO bad.example.com")
check(c.code("MAIL FROM:<a@b.c>") == 5, "bad helo")
check(c.code("MAIL FROM:<x@b.c>") == 2, "other sender")
''')

plant("c06-dbl-phase", "C06",
      "a 'dbl' operation that names both ehlo and from and a listed HELO name",
      "'dbl ehlo,from D' is evaluated, and refuses, at HELO before the sender is known",
      [("rparse.go", "\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom\n\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo",
        "\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo\n\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom")],
      '''
r = put("rules", "reject dbl ehlo,from dbl.example.org\\n")
s = Server(exe, "-force-receive", "-r", r, dns="bad.example.com.dbl.example.org A 127.0.0.2\\n")
c = Client(s)
check(c.code("EHLO bad.example.com") == 2, "the rule needs the sender")
check(c.code("MAIL FROM:<a@b.c>") == 5, "now it counts")
''')

plant("c06-defer-late", "C06",
      "a rule with an explicit phase followed, in a later phase, by nothing that decides first",
      "a rule given an explicit phase before DATA still acts when the message has been received",
      [("rules.go", "\t\tcase r.deferto != pAny && r.deferto < ph:", "\t\tcase r.deferto != pAny && r.deferto < ph && ph <= pData:")],
      '''
r = put("rules", "@from accept all\\n@message reject all\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
check(c.code("EHLO a.b") == 2, "helo")
check(c.code("MAIL FROM:<a@b.c>") == 2, "from")
check(c.code("RCPT TO:<a@b.c>") == 2, "to")
check(c.message("Subject: a\\n\\nx")[0] // 100 == 5, "the message must be refused")
''')

plant("c07-props-leak", "C07",
      "a set-with message at RCPT TO and a decision without options of its own at DATA",
      "options set by a rule for RCPT TO are still in force for the DATA decision",
      [("rules.go", "\tc.withprops = make(map[string]string)\n\tc.domerr = nil", "\tif ph != pData {\n\t\tc.withprops = make(map[string]string)\n\t}\n\tc.domerr = nil")],
      '''
r = put("rules", "@to set-with to a@b.c with message RCPTTEXT\\n@data reject all\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
check("RCPTTEXT" in c.cmd("RCPT TO:<a@b.c>")[1], "the message at RCPT TO")
k, m = c.cmd("DATA")
check(k == 550 and "RCPTTEXT" not in m, "the DATA reply: " + m)
''')

plant("c07-later-overrides", "C07",
      "two matching set-with rules that set the same option",
      "the option of the first matching set-with rule wins over later ones and over the deciding rule's own",
      [("rnodes.go", "\t\t\tc.withprops[k] = v\n", "\t\t\tif c.withprops[k] == \"\" {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}\n")],
      '''
r = put("rules", "set-with all with message GENERAL\\n@from set-with from @b.c with message SPECIAL\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check("SPECIAL" in c.cmd("MAIL FROM:<a@b.c>")[1], "the later one counts")
check("GENERAL" in c.cmd("RCPT TO:<a@b.c>")[1], "only the first matches")
''')

plant("c08-rcpt-miss", "C08",
      "an empty or missing list file reached for one accepted recipient but not for a later one, in a rule checked at DATA or later",
      "a rule neutralised by a missing file for one recipient still matches on another recipient",
      [("rules.go", "\t\tif c.rulemiss {\n\t\t\treturn res\n\t\t}\n\t}\n\treturn false", "\t}\n\treturn false")],
      '''
r = put("rules", "@data reject to special@b.c or to file:%s\\n" % path("nosuch"))
s = Server(exe, "-force-receive", "-r", r)
def go(*rcpts):
    c = Client(s)
    c.cmd("EHLO a.b")
    c.cmd("MAIL FROM:<a@b.c>")
    for a in rcpts:
        c.cmd("RCPT TO:<%s>" % a)
    return c.code("DATA")
check(go("other@b.c") == 3, "no such file")
check(go("other@b.c", "special@b.c") == 3, "the file was consulted for the first recipient")
check(go("special@b.c") == 5, "the file was not consulted")
''')

plant("c09-once", "C09",
      "MAIL FROM:<> that the rules refuse, then at least two RCPT TOs",
      "only the first RCPT TO after a refused null sender gets the refusal, later ones are judged on their own",
      [("rules.go", "\t\tc.withprops = c.defprops\n\t\treturn c.defresult", "\t\tc.withprops = c.defprops\n\t\tret, c.defresult = c.defresult, aError\n\t\treturn ret")],
      '''
r = put("rules", "@from stall from <>\\naccept all\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<>") == 2, "null sender")
check(c.code("RCPT TO:<a@b.c>") == 4, "first")
check(c.code("RCPT TO:<d@b.c>") == 4, "second")
c.cmd("RSET")
check(c.code("MAIL FROM:<x@y.z>") == 2, "other sender")
check(c.code("RCPT TO:<a@b.c>") == 2, "its recipient")
''')

plant("c09-helo-keeps", "C09",
      "a refused null sender, RSET, then another HELO/EHLO",
      "the deferred refusal of MAIL FROM:<> is used up by a following EHLO, which is refused",
      [("rules.go", "\t\tc.heloname = evt.Arg\n\t\tc.defresult = aError\n", "\t\tc.heloname = evt.Arg\n")],
      '''
r = put("rules", "@from reject from <>\\naccept all\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
check(c.code("EHLO a.b") == 2, "first")
check(c.code("MAIL FROM:<>") == 2, "null sender")
check(c.code("RCPT TO:<a@b.c>") == 5, "its recipient")
c.cmd("RSET")
check(c.code("EHLO a.b") == 2, "second EHLO")
''')

plant("c10-data-rcpts", "C10",
      "a rule about recipients that is checked at DATA, with an accepted recipient that matches",
      "at DATA rules about recipients no longer look at the accepted recipients, only after the message do they",
      [("rules.go", "\t\tif ph > pRto && rp >= pRto {", "\t\tif ph > pData && rp >= pRto {")],
      '''
r = put("rules", "@data reject to trap@b.c\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<x@b.c>")
c.cmd("RCPT TO:<trap@b.c>")
check(c.code("DATA") == 5, "a trapped recipient")
''')

plant("c11-connect-stall", "C11",
      "a stall verdict already at connect time (a 'stall all' rule, broken rule files or a do-nothing client)",
      "a connect-time stall closes the connection instead of having no effect, so nobody ever sees the 4xx replies",
      [("sinksmtp.go", "\t\treturn res == aReject\n", "\t\treturn res >= aStall\n")],
      '''
r = put("rules", "stall ip 127.0.0.5\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s, "127.0.0.6")
check(c.hi[0] == 220 and c.code("EHLO a.b") == 2, "other client")
c = Client(s, "127.0.0.5")
check(c.hi[0] == 220 and c.code("EHLO a.b") == 4, "stalled client")
''')

plant("c11-multiline-reject", "C11",
      "a stall rule with a message of its own at the end of a received message",
      "a message that the rules stall with a text is refused for good",
      [("sinksmtp.go", "\tcase aStall:\n\t\tif msg != \"\" {\n\t\t\tconvo.TempfailMsg(\"%s\", msg)",
        "\tcase aStall:\n\t\tif msg != \"\" && id != \"\" {\n\t\t\tconvo.RejectMsg(\"%s\\nDeferred with ID %s\", msg, id)\n\t\t} else if msg != \"\" {\n\t\t\tconvo.TempfailMsg(\"%s\", msg)")],
      '''
r = put("rules", "@message stall all with message LATER\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<x@b.c>")
k, m = c.message("Subject: a\\n\\nx")
check(k // 100 == 4 and "LATER" in m, "stalled: %d" % k)
''')

plant("c12-message-filter", "C12",
      "-M and a client whose recipients an -r rule accepts at DATA",
      "-M refuses DATA, so messages are neither received nor saved",
      [("sinksmtp.go", "\"@message reject all\\n\"", "\"@data reject all\\n\"")],
      '''
d = mkdir("spool")
s = Server(exe, "-M", "-d", d)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<x@b.c>")
check(c.message("Subject: a\\n\\nx")[0] // 100 == 5, "refused")
check(len(os.listdir(d)) == 1, "but saved")
''')

plant("c12-split-std", "C12",
      "a bad sender address given to MAIL FROM",
      "the standard rules against bad addresses are one rule, so bad senders pass MAIL FROM and bad recipients need a bad sender",
      [("sinksmtp.go", "\t\tfmt.Fprintf(&outbuf, \"reject from-has bad,route\\n\")\n\t\tfmt.Fprintf(&outbuf, \"reject to-has bad,route\\n\")\n",
        "\t\tfmt.Fprintf(&outbuf, \"reject from-has bad,route or to-has bad,route\\n\")\n")],
      '''
s = Server(exe, "-force-receive")
c = Client(s)
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<nobody>") == 5, "bad sender")
check(c.code("MAIL FROM:<a@b.c>") == 2, "good sender")
check(c.code("RCPT TO:<nobody>") == 5, "bad recipient")
''')

plant("c13-last-error", "C13",
      "two rule files, the first of which is broken while a later one loads",
      "an error in a rule file is forgotten when a later file loads; the rules then apply in part",
      [("sinksmtp.go", "\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n",
        "\t\trules, err = accumRules(rules, rfile)\n")],
      '''
r1 = put("rules1", "reject from bad@b.c\\n")
r2 = put("rules2", "accept all\\n")
s = Server(exe, "-force-receive", "-r", r1 + "," + r2)
check(Client(s).code("EHLO a.b") == 2, "good rules")
put("rules1", "reject from bad@b.c\\nrejcet all\\n")
check(Client(s).code("EHLO a.b") == 4, "broken first file")
put("rules1", "reject from bad@b.c\\n")
put("rules2", "(\\n")
check(Client(s).code("EHLO a.b") == 4, "broken last file")
''')

plant("c13-include-order", "C13",
      "a rule file with rules after an 'include' line",
      "rules of an included file come after all rules of the including file",
      [("rparse.go", "func (p *parser) pFile() (rules []*Rule, err error) {\n\tfor {", "func (p *parser) pFile() (rules []*Rule, err error) {\n\tvar inc []*Rule\n\tfor {"),
       ("rparse.go", "\t\t\trules = append(rules, rl...)\n", "\t\t\tinc = append(inc, rl...)\n"),
       ("rparse.go", "\t\tif p.curtok.typ == itemEOF {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn rules, nil", "\t\tif p.curtok.typ == itemEOF {\n\t\t\tbreak\n\t\t}\n\t}\n\trules = append(rules, inc...)\n\treturn rules, nil")],
      '''
i = put("inc", "accept from good@b.c\\n")
r = put("rules", "include %s\\nreject from @b.c\\n" % i)
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<bad@b.c>") == 5, "bad")
c = Client(s)
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<good@b.c>") == 2, "good")
''')

plant("c14-rule-cache", "C14",
      "a rule file changed, while the server runs, to another text of the same length",
      "parsed rules are cached by file name and size, so a connection can get rules that are no longer in the file",
      [("sinksmtp.go", "\trules, err := loadRules(fname)", "\trules, err := cacheRules(fname)"),
       ("sinksmtp.go", "// Load a|the rule file. We assume filename is non-empty.\n",
        "// Most connections find the rules as the last one did.\ntype cachedRules struct {\n\tsize  int64\n\trules []*Rule\n}\n\nvar rulecache = struct {\n\tsync.Mutex\n\tents map[string]cachedRules\n}{ents: make(map[string]cachedRules)}\n\nfunc cacheRules(fname string) ([]*Rule, error) {\n\tfi, err := os.Stat(fname)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\trulecache.Lock()\n\tdefer rulecache.Unlock()\n\tif e, ok := rulecache.ents[fname]; ok && e.size == fi.Size() {\n\t\treturn e.rules, nil\n\t}\n\trl, err := loadRules(fname)\n\tif err == nil {\n\t\trulecache.ents[fname] = cachedRules{fi.Size(), rl}\n\t}\n\treturn rl, err\n}\n\n// Load a|the rule file. We assume filename is non-empty.\n")],
      '''
r = put("rules", "reject from a@b.c\\n")
s = Server(exe, "-force-receive", "-r", r)
c1 = Client(s)
c1.cmd("EHLO a.b")
put("rules", "reject from x@b.c\\n")
c2 = Client(s)
c2.cmd("EHLO a.b")
check(c1.code("MAIL FROM:<x@b.c>") == 2 and c1.code("MAIL FROM:<a@b.c>") == 503 // 100, "the old connection, old rules")
check(c2.code("MAIL FROM:<x@b.c>") == 5, "the new connection, new rules")
check(c2.code("MAIL FROM:<a@b.c>") == 2, "the new connection, new rules")
''')

plant("c15-rset-rcpts", "C15",
      "recipients accepted in a transaction that is then RSET, and a message sent in the next one",
      "recipients of an abandoned transaction are recorded for the next message",
      [("sinksmtp.go", "\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}\n",
        "\t\t\t\tif trans.from != evt.Arg {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = \"\"\n")],
      '''
s = Server(exe, "-force-receive", "-l", path("log"))
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<one@b.c>")
c.cmd("RSET")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<two@b.c>")
check(c.message("Subject: a\\n\\nx")[0] == 250, "accepted")
c.quit()
check("to <two@b.c>:" in get("log"), get("log"))
''')

plant("c15-early-helo", "C15",
      "a HELO/EHLO that the rules refuse after an accepted one",
      "the HELO name of a refused command is recorded with the message",
      [("sinksmtp.go", "\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\tif decider(pHelo, evt, c, convo, \"\", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.heloname = evt.Arg\n",
        "\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\tif decider(pHelo, evt, c, convo, \"\", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n")],
      '''
r = put("rules", "reject helo bad.example.com\\n")
r = put("rules", "@helo reject helo bad.example.com\\n")
s = Server(exe, "-force-receive", "-l", path("log"), "-r", r)
c = Client(s)
check(c.code("EHLO good.example.com") == 2, "good")
check(c.code("EHLO bad.example.com") == 5, "bad")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<one@b.c>")
check(c.message("Subject: a\\n\\nx")[0] == 250, "accepted")
c.quit()
check("helo 'good.example.com'" in get("log"), get("log"))
''')

plant("c16-exist-any", "C16",
      "a save directory that has become unwritable or vanished while the server runs",
      "a message that cannot be created on disk is acknowledged",
      [("sinksmtp.go", "\t} else if !os.IsExist(err) {\n\t\twarnf(\"error writing message file: %v\\n\", err)\n\t} else {\n\t\terr = nil\n\t}",
        "\t} else {\n\t\tif !os.IsExist(err) {\n\t\t\twarnf(\"error writing message file: %v\\n\", err)\n\t\t}\n\t\terr = nil\n\t}")],
      '''
d = mkdir("spool")
s = Server(exe, "-d", d)
def go():
    c = Client(s)
    c.cmd("EHLO a.b")
    c.cmd("MAIL FROM:<a@b.c>")
    c.cmd("RCPT TO:<one@b.c>")
    return c.message("Subject: a\\n\\nx")[0] // 100
check(go() == 2, "saved")
os.rename(d, d + "2")
check(go() == 4, "cannot be saved")
''')

plant("c32-savedir-reset", "C32",
      "a rule that selects a save directory before MAIL FROM (at HELO, say)",
      "the selected save directory is forgotten at the next MAIL FROM, messages go to -d",
      [("sinksmtp.go", "\tif sd := c.withprops[\"savedir\"]; sd != \"\" {\n\t\tc.trans.savedir = sd\n\t}",
        "\tsd := c.withprops[\"savedir\"]\n\tif ph == pMfrom && sd == \"\" && len(c.trans.rcptto) > 0 {\n\t\tsd = savedir\n\t}\n\tif sd != \"\" {\n\t\tc.trans.savedir = sd\n\t}")],
      """
d, e = mkdir("spool"), mkdir("other")
r = put("rules", "@helo set-with helo special.example.com with savedir %s\\n" % e)
s = Server(exe, "-d", d, "-r", r)
c = Client(s)
c.cmd("EHLO special.example.com")
for i in range(2):
    c.cmd("MAIL FROM:<a@b.c>")
    c.cmd("RCPT TO:<one@b.c>")
    check(c.message("Subject: a\\n\\nx%d" % i)[0] == 250, "saved")
check(len(os.listdir(e)) == 2 and not os.listdir(d), "the chosen directory")
""")

plant("c17-full-port", "C17",
      "-save-hash full and the same message sent again over another connection",
      "the 'full' name depends on the client's port, so resent messages are saved again",
      [("sinksmtp.go", "\tif rmsg == \"\" {\n\t\trmsg = trans.raddr.String()", "\tif rmsg == \"\" || trans.tlson || len(trans.rcptto) > 1 {\n\t\trmsg = trans.raddr.String()")],
      '''
d = mkdir("spool")
s = Server(exe, "-d", d, "-save-hash", "full")
def go(*rc):
    c = Client(s)
    c.cmd("EHLO a.b")
    c.cmd("MAIL FROM:<a@b.c>")
    for a in rc:
        c.cmd("RCPT TO:<%s>" % a)
    return c.message("Subject: a\\n\\nx")[1]
check(go("a@b.c") == go("a@b.c"), "one recipient")
check(go("a@b.c", "d@b.c") == go("a@b.c", "d@b.c"), "two recipients")
check(len(os.listdir(d)) == 2, "two files")
''')

plant("c18-rset-early", "C18",
      "-dncount with a -minphase past MAIL FROM and repeated MAIL FROM in one session up to exactly the limit",
      "a client is dropped by RSETs one transaction too early, on reaching the limit and not on exceeding it, and cannot clear its record",
      [("sinksmtp.go", "\t\t\t\t\tif cnt > yakCount {", "\t\t\t\t\tif cnt >= yakCount {")],
      '''
s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-dncount", "2", "-minphase", "to")
c = Client(s, "127.0.0.5")
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<a@b.c>") == 2, "first")
for i in range(2):
    c.cmd("RSET")
    check(c.code("MAIL FROM:<a@b.c>") == 2, "again")
check(c.code("RCPT TO:<a@b.c>") == 2, "and now it gets somewhere")
''')

plant("c18-tls-error-counts", "C18",
      "-dncount and a client whose sessions end in TLS setup failures",
      "sessions with TLS errors count as do-nothing sessions",
      [("sinksmtp.go", "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tsesscounts = false\n", "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tsesscounts = sesscounts && yakCount > 1\n")],
      '''
import subprocess
subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("key"), "-out", path("crt"), "-days", "2", "-subj", "/CN=x"], stderr=subprocess.DEVNULL)
s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-dncount", "2", "-minphase", "to", "-c", path("crt"), "-k", path("key"))
for i in range(2):
    c = Client(s, "127.0.0.5")
    check(c.code("EHLO a.b") == 2, "not stalled")
    c.cmd("STARTTLS")
    c.s.sendall(b"this is not TLS\\r\\n")
    c.wait()
    time.sleep(0.3)
c = Client(s, "127.0.0.5")
check(c.code("EHLO a.b") == 2, "still not stalled")
''')

plant("c19-set-when", "C19",
      "make-yakker for a client that already has an older do-nothing entry, and a later connection within -dndur of it",
      "make-yakker does not renew an existing entry, so it expires with the old one",
      [("sinksmtp.go", "\tcase t == nil:\n\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.when = time.Now()\n\tocnt",
        "\tcase t == nil:\n\t\tt = &ipEnt{when: time.Now()}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\tt.when = time.Now()\n\t\ti.stats.AddsExpired++\n\t}\n\tocnt")],
      '''
r = put("rules", "reject from trap@b.c with make-yakker\\n")
s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-dncount", "3", "-dndur", "4s", "-minphase", "to", "-r", r)
Client(s, "127.0.0.5").quit()
time.sleep(2.5)
c = Client(s, "127.0.0.5")
check(c.code("EHLO a.b") == 2, "not yet")
c.cmd("MAIL FROM:<trap@b.c>")
c.quit()
time.sleep(2.5)
c = Client(s, "127.0.0.5")
check(c.code("EHLO a.b") == 4, "a do-nothing client")
''')

plant("c20-tls-window", "C20",
      "-dndur set to a short time and two TLS failures further apart than that",
      "TLS failures are forgotten after the do-nothing window instead of after 72 hours",
      [("sinksmtp.go", "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n", "\t\t\tnotls.Add(trans.rip, yakTimeout)\n")],
      '''
import subprocess
subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("key"), "-out", path("crt"), "-days", "2", "-subj", "/CN=x"], stderr=subprocess.DEVNULL)
s = Server(exe, "-force-receive", "-dndur", "1s", "-c", path("crt"), "-k", path("key"))
for i in range(2):
    c = Client(s, "127.0.0.5")
    check("STARTTLS" in c.cmd("EHLO a.b")[1], "TLS offered")
    c.cmd("STARTTLS")
    c.s.sendall(b"this is not TLS\\r\\n")
    c.wait()
    time.sleep(1.3)
c = Client(s, "127.0.0.5")
check("STARTTLS" not in c.cmd("EHLO a.b")[1], "two failures")
c = Client(s, "127.0.0.6")
check("STARTTLS" in c.cmd("EHLO a.b")[1], "another client")
''')

plant("c21-keep-certs", "C21",
      "-c/-k certificates and a -conncfg line for the local address that names none",
      "a -conncfg line without certificates keeps the command line's ones, so TLS stays on",
      [("conncfg.go", "\t\tpd.myname = host\n", "\t\tpd.myname = host\n\t\tpd.keep = cert == \"\" && host != \"\"\n"),
       ("conncfg.go", "\tmyname string\n", "\tmyname string\n\tkeep   bool // use the default certificates\n"),
       ("sinksmtp.go", "\t\t\tcerts = pd.certs\n", "\t\t\tif !pd.keep {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n")],
      '''
import subprocess
subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("key"), "-out", path("crt"), "-days", "2", "-subj", "/CN=x"], stderr=subprocess.DEVNULL)
f = put("conncfg", "127.0.0.1 hostname=here.example.com\\n")
s = Server(exe, "-force-receive", "-conncfg", f, "-c", path("crt"), "-k", path("key"))
c = Client(s)
check("here.example.com" in c.hi[1], "name")
check("STARTTLS" not in c.cmd("EHLO a.b")[1], "no TLS for that address")
''')

plant("c22-short-circuit", "C22",
      "a domain with a good MX and a less preferred 'localhost.' MX",
      "checking stops at the first good MX, so a null or localhost MX after it is not noticed",
      [("mxresolve.go", "\t// valid the moment any one of them is; however, we can't short\n\t// circuit the check because we want to continue to check for\n\t// '.' et al in all MXes, even high preference ones.\n", "\t// valid the moment any one of them is.\n"),
       ("mxresolve.go", "\t\tv, err := checkIP(m.Host)\n", "\t\tv, err := checkIP(lc)\n"),
       ("mxresolve.go", "\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n", "\t\t\tvalid = v\n\t\t\tverr = err\n\t\t\tif v == dnsGood {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n")],
      '''
r = put("rules", "accept from-has resolves\\n@from reject all\\n")
dns = "mx.good.org A 130.0.0.1\\ngood.org MX mx.good.org\\nlocalhost A 127.0.0.1\\n"
s = Server(exe, "-force-receive", "-r", r, dns=dns + "bad.org MX mx.good.org\\nbad.org MX localhost\\n" * 1)
for i in range(8):
    c = Client(s)
    c.cmd("EHLO a.b")
    check(c.code("MAIL FROM:<a@bad.org>") == 5, "localhost MX")
    check(c.code("MAIL FROM:<a@good.org>") == 2, "good MX")
''')

plant("c22-temp-over-bad", "C22",
      "a domain with one MX that has no or bad addresses and another whose lookup fails temporarily",
      "a temporarily failing MX no longer outweighs a bad one: the first MX decides among them",
      [("mxresolve.go", "\t\tif v > valid {", "\t\tif valid == dnsUndef || v == dnsGood {")],
      '''
r = put("rules", "accept from-has unknown\\n@from reject all\\n")
s = Server(exe, "-force-receive", "-r", r, dns="a.x.org A 10.0.0.1\\nb.x.org A !\\nbad.org MX a.x.org\\nbad.org MX b.x.org\\n")
for i in range(12):
    c = Client(s)
    c.cmd("EHLO a.b")
    check(c.code("MAIL FROM:<a@bad.org>") == 2, "not definitely bad")
''')

plant("c23-hoisted", "C23",
      "a client with a verified name that sorts before a forged one",
      "names after a verified one that do not map back are lost instead of inconsistent",
      [("rdns.go", "\tfor _, name := range names {\n\t\taddrs", "\tverified := false\n\tfor _, name := range names {\n\t\taddrs"),
       ("rdns.go", "\t\tverified := false\n\t\tfor _, addr", "\t\tfor _, addr")],
      '''
r = put("rules", "@helo reject dns inconsistent\\n")
def dns(ip, names):
    return "".join("%s PTR %s\\n" % (".".join(reversed(ip.split("."))) + ".in-addr.arpa", n) for n in names)
s = Server(exe, "-force-receive", "-r", r, dns=dns("127.0.0.5", ["a.example.com", "b.example.com"]) + dns("127.0.0.6", ["a.example.com"])
   + "a.example.com A 127.0.0.5\\na.example.com A 127.0.0.6\\nb.example.com A 127.0.0.7\\n")
check(Client(s, "127.0.0.6").code("EHLO a.b") == 2, "one good name")
check(Client(s, "127.0.0.5").code("EHLO a.b") == 5, "a forged name too")
''')

plant("c24-dbl-inconsist", "C24",
      "a client whose only listed reverse DNS name is an inconsistent one",
      "'dbl host' does not check reverse DNS names that do not map back",
      [("rnodes.go", "\t\tfor _, s := range c.trans.rdns.inconsist {", "\t\tfor _, s := range c.trans.rdns.nofwd {")],
      '''
r = put("rules", "@helo reject dbl host dbl.example.org\\n")
s = Server(exe, "-force-receive", "-r", r, dns="5.0.0.127.in-addr.arpa PTR a.spam.com\\na.spam.com A 127.0.0.9\\n"
  "6.0.0.127.in-addr.arpa PTR b.spam.com\\nb.spam.com A 127.0.0.6\\n"
  "a.spam.com.dbl.example.org A 127.0.0.2\\nb.spam.com.dbl.example.org A 127.0.0.2\\n")
check(Client(s, "127.0.0.6").code("EHLO a.b") == 5, "verified name")
check(Client(s, "127.0.0.5").code("EHLO a.b") == 5, "forged name")
check(Client(s, "127.0.0.7").code("EHLO a.b") == 2, "no name")
''')

plant("c24-cache-key", "C24",
      "two DNS blocklists in the rules with different answers for the same name",
      "the blocklist cache confuses two blocklists that share their last labels",
      [("rules.go", "\tif c.dnsbl[hn] != nil {\n\t\treturn *c.dnsbl[hn]\n\t}\n", "\tkey := hn\n\tif idx := strings.LastIndexByte(strings.TrimSuffix(hn, \".\"), '.'); idx != -1 {\n\t\tkey = hn[:idx]\n\t}\n\tif c.dnsbl[key] != nil {\n\t\treturn *c.dnsbl[key]\n\t}\n"),
       ("rules.go", "\tc.dnsbl[hn] = &res\n", "\tc.dnsbl[key] = &res\n")],
      '''
r = put("rules", "@helo set-with dnsbl bl.example.org with message LISTED\\n@helo reject dnsbl bl.example.net\\n")
s = Server(exe, "-force-receive", "-r", r, dns="5.0.0.127.bl.example.org A 127.0.0.2\\n6.0.0.127.bl.example.net A 127.0.0.2\\n")
check(Client(s, "127.0.0.6").code("EHLO a.b") == 5, "second list")
check(Client(s, "127.0.0.5").code("EHLO a.b") == 2, "first list")
''')

plant("c25-quote-newline", "C25",
      "a quoted string that holds a backslash followed by the letter n",
      "'\\n' in a quoted string becomes a line end instead of being kept as it is",
      [("rlex.go", "\t\tif !(strings.HasPrefix(l.input[apos:], \"\\\\\\\"\") || strings.HasPrefix(l.input[apos:], \"\\\\\\\\\")) {",
        "\t\tesc := \"\"\n\t\tif apos+1 < len(l.input) {\n\t\t\tesc = map[byte]string{'\"': \"\\\"\", '\\\\': \"\\\\\", 'n': \"\\n\"}[l.input[apos+1]]\n\t\t}\n\t\tif esc == \"\" {"),
       ("rlex.go", "\t\tqparts = append(qparts, l.input[apos+1:apos+2])\n", "\t\tqparts = append(qparts, esc)\n")],
      r"""
def said(q):
    r = put("rules", "@helo reject all with message %s\n" % q)
    s = Server(exe, "-force-receive", "-r", r)
    if not s.up():
        return None
    m = Client(s).cmd("EHLO a.b")[1]
    s.stop()
    return m
check(said('"plain"') == "plain", "plain")
check(said('"a \\"b\\" c"') == 'a "b" c', "quotes")
check(said('"a\\\\"') == "a\\", "a backslash at the end")
check(said('"C:\\net"') == "C:\\net", "no escape")
""")

plant("c25-comment-continuation", "C25",
      "a comment line that ends in a backslash, followed by a rule",
      "a comment ending in a backslash swallows the next line, so that rule is lost",
      [("rlex.go", "\tidx := strings.IndexByte(l.input[l.pos:], '\\n')\n\tif idx < 0 {\n\t\tidx = len(l.input) - l.pos\n\t}\n\tl.pos += idx\n\tl.swallow()\n\treturn lexLineStart",
        "\tidx := strings.IndexByte(l.input[l.pos:], '\\n')\n\tif idx < 0 {\n\t\tidx = len(l.input) - l.pos\n\t}\n\tl.pos += idx\n\tl.swallow()\n\tif idx == 0 || l.input[l.pos-1] != '\\\\' || l.next() == eof {\n\t\treturn lexLineStart\n\t}\n\treturn lexComment")],
      '''
r = put("rules", "# see C:\\\\\\\\RULES\\\\\\n@helo reject all\\n")
s = Server(exe, "-force-receive", "-r", r)
check(Client(s).code("EHLO a.b") == 5, "the rule after the comment")
''')

plant("c26-close-early", "C26",
      "a rule text with a lexing error after which the parser looks at one more token",
      "an error token is consumed after an 'include' with a bad argument and the parser panics",
      [("rparse.go", "\tp.consume()\n\tfname, err := p.pArg()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n", "\tp.consume()\n\tfname, err := p.pArg()\n\tif err != nil {\n\t\tp.consume()\n\t\treturn nil, fmt.Errorf(\"include: %v\", err)\n\t}\n")],
      '''
r = put("rules", "accept all\\n")
s = Server(exe, "-force-receive", "-r", r)
check(Client(s).code("EHLO a.b") == 2, "good rules")
for t in "include\\n", "include (\\n", "include file:\\n", 'include "abc\\n', "include":
    put("rules", t)
    check(Client(s).code("EHLO a.b") == 4, "bad rules " + t)
check(s.up(), "the server is gone")
''')

plant("c08-single-entry", "C08",
      "a list file with exactly one entry",
      "a list file with one entry counts as empty and neutralises its rule",
      [("rules.go", "\tif len(l) == 0 {\n\t\tc.files[fname]", "\tif len(l) <= 1 {\n\t\tc.files[fname]")],
      """
f = put("hosts", "# bad ones\\nplain.example.com\\n")
r = put("rules", "@helo reject helo file:%s\\n" % f)
s = Server(exe, "-force-receive", "-r", r)
check(Client(s).code("EHLO plain.example.com") == 5, "listed")
check(Client(s).code("EHLO other.example.com") == 2, "other")
""")

plant("c28-no-client", "C28",
      "a rule with 'tls-opt no-client' that matches on a connection without TLS",
      "such a rule crashes the server after 'tls-opt off' was in force on the connection",
      [("sinksmtp.go", "\t\tif convo.Config.TLSConfig != nil {\n", "\t\tif convo.Config.TLSConfig != nil || ph != pConnect {\n")],
      '''
r = put("rules", "@helo set-with helo odd.example.com with tls-opt no-client\\n")
s = Server(exe, "-force-receive", "-r", r)
check(Client(s).code("EHLO plain.example.com") == 2, "plain")
check(Client(s).code("EHLO odd.example.com") == 2, "odd")
check(s.up() and Client(s).code("EHLO plain.example.com") == 2, "the server is gone")
''')

plant("c29-lookup-lock", "C29",
      "two sessions of one client at the same time, one ending while the other is counted",
      "the count of an entry is updated after the table is unlocked, so simultaneous sessions race and updates get lost",
      [("sinksmtp.go", "\tt.count++\n\tt.when = time.Now()\n\tcnt := t.count\n\ti.Unlock()\n\treturn cnt\n", "\ti.Unlock()\n\tt.count++\n\tt.when = time.Now()\n\treturn t.count\n")],
      '''
exe = build(race=True)
s = Server(exe, "-force-receive", "-smtplog", "/dev/null", "-dncount", "5000", "-minphase", "to")
import threading
def go():
    for i in range(40):
        Client(s, "127.0.0.5").quit()
ts = [threading.Thread(target=go) for i in range(12)]
for t in ts: t.start()
for t in ts: t.join()
check("DATA RACE" not in get("stderr"), "data race")
''')

plant("c30-rules-receive", "C30",
      "-r without -d, -M and -force-receive",
      "the server starts without a save directory when rule files are given and drops the mail it accepts",
      [("sinksmtp.go", "\tif savedir == \"\" && !(force || failgotdata) {", "\tif savedir == \"\" && !(force || failgotdata || rfiles != \"\") {")],
      '''
r = put("rules", "accept all\\n")
s = Server(exe, "-r", r)
check(not s.up(), "the server runs and loses mail")
s = Server(exe, "-r", r, "-force-receive")
check(s.up(), "now it may")
''')

plant("c30-dndur", "C30",
      "-dncount with a -dndur below one second given in a negative or sub-second form",
      "a sub-second -dndur is accepted when -dnlog is not given",
      [("sinksmtp.go", "\tif yakCount > 0 && yakTimeout < time.Second {", "\tif yakCount > 0 && dnlogfile != \"\" && yakTimeout < time.Second {")],
      '''
for d in "500ms", "0s", "-1h":
    s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-dncount", "3", "-dndur", d)
    check(not s.up(), "accepts -dndur " + d)
s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-dncount", "3", "-dndur", "1s")
check(s.up(), "one second is fine")
''')

plant("c31-v4-zero-net", "C31",
      "a network of prefix length 0, or an IPv4 network matched against an IPv4 client",
      "'ip 0.0.0.0/0' and '::/0' match nobody",
      [("rules.go", "\t_, ipn, err := net.ParseCIDR(cidr)\n\tif err != nil {\n\t\treturn false\n\t}\n\treturn ipn.Contains(ip)",
        "\t_, ipn, err := net.ParseCIDR(cidr)\n\tif err != nil {\n\t\treturn false\n\t}\n\t// an empty mask does not name any network.\n\tn, _ := ipn.Mask.Size()\n\treturn n > 0 && ipn.Contains(ip)")],
      '''
r = put("rules", "@helo reject ip 0.0.0.0/0\\n")
s = Server(exe, "-force-receive", "-r", r)
check(Client(s).code("EHLO a.b") == 5, "every IPv4 client")
''')

CRT = '''subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("key"), "-out", path("crt"), "-days", "2", "-subj", "/CN=x"], stderr=subprocess.DEVNULL)
def starttls(c):
    check(c.code("STARTTLS") == 2, "STARTTLS")
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE
    c.s = ctx.wrap_socket(c.s)
    c.f = c.s.makefile("rb")
'''

plant("c05-empty-with", "C05",
      "a compact rule in which an empty 'with' is followed by ';'",
      "an empty with clause is only refused at the end of a line",
      [("rparse.go", "\tcase p.isERule() && !good:", "\tcase p.isEol() && !good:")],
      '''
def loads(t):
    return Server(exe, "-force-receive", "-r", put("rules", t)).up()
check(not loads("reject from a@b with\\n"), "at the end")
check(not loads("reject from a@b with; to c@d\\n"), "before a clause")
check(loads("reject from a@b with note x; to c@d\\n"), "a good one")
''')

plant("c08-clause-miss", "C08",
      "a compact set-with rule whose second clause uses a missing file under 'not'",
      "a clause other than the first one that consults an unusable file still sets its options",
      [("rnodes.go", "\t\tif c.rulemiss {\n\t\t\t// the", "\t\tif c.rulemiss && i == 0 {\n\t\t\t// the")],
      '''
r = put("rules", "@from set-with from z@z with message ONE; not from file:%s with message TWO\\n@from reject all\\n" % path("nolist"))
s = Server(exe, "-force-receive", "-nostdrules", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
m = c.cmd("MAIL FROM:<a@b.c>")
check(m[0] // 100 == 5 and "TWO" not in m[1], "option of a neutralised rule")
''')

plant("c10-null-keeps", "C10",
      "a second transaction in a session, from the null sender, after one with another recipient",
      "recipients of the previous transaction are only forgotten for a sender that is not null",
      [("sinksmtp.go", "\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\tif minphase == \"from\" {",
        "\t\t\t\ttrans.data = \"\"\n\t\t\t\tif trans.from != \"\" {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\tif minphase == \"from\" {")],
      '''
r = put("rules", "@data reject to trap@b.c from <>\\n")
s = Server(exe, "-force-receive", "-nostdrules", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<trap@b.c>")
check(c.message("x")[0] // 100 == 2, "first message")
c.cmd("MAIL FROM:<>")
c.cmd("RCPT TO:<other@b.c>")
check(c.message("y")[0] // 100 == 2, "second message")
''')

plant("c12-null-bad-to", "C12",
      "a bounce (null sender) to an address without a proper domain",
      "the standard rule against bad recipient addresses does not apply to the null sender",
      [("sinksmtp.go", "\"reject to-has bad,route\\n\"", "\"reject to-has bad,route not from <>\\n\"")],
      '''
s = Server(exe, "-force-receive")
for f in "a@b.c", "":
    c = Client(s)
    c.cmd("EHLO a.b")
    check(c.code("MAIL FROM:<%s>" % f) == 2, "sender")
    check(c.code("RCPT TO:<nobody>") == 5, "bad recipient")
    check(c.code("RCPT TO:<d@b.c>") == 2, "good recipient")
''')

plant("c13-same-file-once", "C13",
      "the same rule file given twice, with another file between",
      "a rule file that was given already is skipped",
      [("sinksmtp.go", "\tfor _, rfile = range rulefiles {\n\t\trules, err = accumRules(rules, rfile)\n", "\tseen := make(map[string]bool)\n\tfor _, rfile = range rulefiles {\n\t\tif !seen[rfile] {\n\t\t\trules, err = accumRules(rules, rfile)\n\t\t}\n\t\tseen[rfile] = true\n")],
      '''
# the second set-with of file A must override that of B
a = put("a", "@from set-with all with message AAA\\n")
b = put("b", "@from set-with all with message BBB\\n")
e = put("e", "@from reject all\\n")
s = Server(exe, "-force-receive", "-nostdrules", "-r", ",".join([a, b, a, e]))
c = Client(s)
c.cmd("EHLO a.b")
m = c.cmd("MAIL FROM:<a@b.c>")
check(m[0] // 100 == 5 and "AAA" in m[1], "the last setting is in force")
''')

plant("c15-dup-rcpt", "C15",
      "a transaction giving the same recipient twice, or in another case",
      "accepted recipients that differ only in case from an earlier one are not recorded",
      [("sinksmtp.go", "\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n",
        "\t\t\t\tdup := false\n\t\t\t\tfor _, a := range trans.rcptto {\n\t\t\t\t\tdup = dup || strings.EqualFold(a, evt.Arg)\n\t\t\t\t}\n\t\t\t\tif !dup {\n\t\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\t}\n")],
      '''
s = Server(exe, "-d", mkdir("save"), "-l", path("log"))
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
for t in "x@b.c", "X@b.c", "y@b.c":
    check(c.code("RCPT TO:<%s>" % t) == 2, t)
c.message("hello")
c.quit()
f = glob.glob(path("save") + "/*")
check(len(f) == 1, "one file")
t = open(f[0]).read()
for a in "x@b.c", "X@b.c", "y@b.c":
    check("<" + a + ">" in t or a in t, a + " is recorded")
''')

plant("c19-tls-forgets", "C19",
      "a make-yakker rule that matched before a failed STARTTLS in the same session",
      "a TLS error makes the session forget that the client was to be marked",
      [("sinksmtp.go", "\t\t\tsesscounts = false\n\t\t\tevents.tlserrs", "\t\t\tsesscounts, trans.makeyakker = false, false\n\t\t\tevents.tlserrs")],
      CRT + '''
r = put("rules", "@helo set-with helo evil.b with make-yakker\\n")
s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-dncount", "3", "-c", path("crt"), "-k", path("key"), "-r", r)
c = Client(s, "127.0.0.7")
c.cmd("EHLO evil.b")
c.cmd("STARTTLS")
c.s.sendall(b"this is not TLS\\r\\n")
c.wait()
time.sleep(0.5)
check(Client(s, "127.0.0.7").code("EHLO good.b") == 4, "marked")
check(Client(s, "127.0.0.8").code("EHLO good.b") == 2, "another client")
''')

plant("c21-specific-first", "C21",
      "a -conncfg file with a '*' line before a line naming the local address",
      "a line with the exact address wins over an earlier '*' line",
      [("conncfg.go", "\t\tif de.local == \"*\" || de.local == las {\n\t\t\treturn de\n\t\t}", "\t\tif de.local == las {\n\t\t\treturn de\n\t\t}"),
       ("conncfg.go", "\t}\n\treturn nil\n}\n\n// Parse a file into", "\t}\n\tfor _, de := range *d {\n\t\tif de.local == \"*\" {\n\t\t\treturn de\n\t\t}\n\t}\n\treturn nil\n}\n\n// Parse a file into")],
      '''
f = put("cfg", "* hostname=first.b\\n127.0.0.1 hostname=second.b\\n")
s = Server(exe, "-force-receive", "-conncfg", f)
check("first.b" in Client(s).hi[1], "the first matching line")
''')

plant("c28-drop-open", "C28",
      "a client dropped by a rule at connect time",
      "the connection is not closed when a rule drops it at once: the client and a file descriptor hang",
      [("sinksmtp.go", "\tdefer nc.Close()\n\n\ttrans :=", "\ttrans :="),
       ("sinksmtp.go", "\tfor {\n\t\tevt = convo.Next()", "\tdefer nc.Close()\n\tfor {\n\t\tevt = convo.Next()")],
      '''
r = put("rules", "@connect reject ip 127.0.0.9\\n")
s = Server(exe, "-force-receive", "-r", r)
c = socket.socket()
c.settimeout(10)
c.bind(("127.0.0.9", 0))
c.connect((s.ip, s.port))
try:
    while c.recv(100):
        pass
except socket.timeout:
    check(False, "the connection stays open")
except OSError:
    pass
''')

plant("c29-live-map", "C29",
      "the statistics being read while another connection's client is found in a blocklist",
      "the blocklist counters are published as the live map, which is read without its lock",
      [("sinksmtp.go", "\tnm := make(map[string]uint64)\n\tfor k, v := range dc.dbls {\n\t\tnm[k] = v\n\t}\n\treturn nm", "\treturn dc.dbls")],
      '''
exe = build(race=True)
import threading, urllib.request
r = put("rules", "@helo set-with dnsbl bl.x with note listed\\n")
pp = freeport()
s = Server(exe, "-force-receive", "-pprof", "127.0.0.1:%d" % pp, "-smtplog", "/dev/null", "-r", r, dns="5.0.0.127.bl.x A 127.0.0.2\\n")
def go():
    for i in range(40):
        c = Client(s, "127.0.0.5")
        c.cmd("EHLO a.b")
        c.quit()
def look():
    for i in range(150):
        t = urllib.request.urlopen("http://127.0.0.1:%d/debug/vars" % pp).read()
ts = [threading.Thread(target=go) for i in range(4)] + [threading.Thread(target=look) for i in range(2)]
for t in ts: t.start()
for t in ts: t.join()
check("bl.x" in urllib.request.urlopen("http://127.0.0.1:%d/debug/vars" % pp).read().decode(), "the hits are counted")
check("DATA RACE" not in get("stderr"), "data race")
''')

plant("c30-accept-ends", "C30",
      "an error while accepting a connection (such as too many open files)",
      "the listener of an address ends at the first error from Accept",
      [("sinksmtp.go", "\t\tif err == nil {\n\t\t\tlistenc <- nc\n\t\t}", "\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tlistenc <- nc")],
      '''
import resource
exe2 = path("limited")
with open(exe2, "w") as fp:
    fp.write('#!/bin/sh\\nulimit -n 24\\nexec "$@"\\n')
os.chmod(exe2, 0o755)
s = Server(exe, "-force-receive", prog=[exe2])
cs = []
for i in range(40):
    c = socket.socket()
    c.connect((s.ip, s.port))
    cs.append(c)
time.sleep(1)
for c in cs:
    c.close()
time.sleep(1)
check(s.up(), "the server runs")
check(Client(s).code("EHLO a.b") == 2, "and serves")
''')

plant("c30-shared-id", "C30",
      "connections that arrive before the handler of an earlier one has started",
      "the handlers read the connection id from the variable the accepting loop goes on counting with",
      [("sinksmtp.go", "\t\tgo process(cid, nc, certs, logf, slogf, dnlogf, baserules)\n\t\tcid++", "\t\tgo func() {\n\t\t\tprocess(cid, nc, certs, logf, slogf, dnlogf, baserules)\n\t\t}()\n\t\tcid++")],
      '''
exe = build(race=True)
s = Server(exe, "-force-receive", "-smtplog", path("slog"))
for i in range(20):
    Client(s).quit()
check("DATA RACE" not in get("stderr"), "data race")
''')

plant("c32-reject-savedir", "C32",
      "a savedir option on a rule that rejects, and a later message in the session",
      "the savedir of a rejecting rule does not stay in force",
      [("sinksmtp.go", "\tif sd := c.withprops[\"savedir\"]; sd != \"\" {", "\tif sd := c.withprops[\"savedir\"]; sd != \"\" && res != aReject {")],
      '''
d = mkdir("other")
r = put("rules", "@to reject to trap@b.c with savedir %s\\n" % d)
s = Server(exe, "-d", mkdir("save"), "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
check(c.code("RCPT TO:<trap@b.c>") == 5, "refused")
check(c.code("RCPT TO:<x@b.c>") == 2, "accepted")
c.message("hello")
c.quit()
check(len(os.listdir(d)) == 1 and len(os.listdir(path("save"))) == 0, "the directory chosen last")
''')

plant("c33-note-repeat", "C33",
      "the same rule's note hitting at two commands in a row",
      "a note equal to the one logged last is not logged",
      [("sinksmtp.go", "\tif note := c.withprops[\"note\"]; note != \"\" {\n", "\tif note := c.withprops[\"note\"]; note != \"\" && note != c.trans.lastamsg {\n\t\tc.trans.lastamsg = note\n")],
      '''
r = put("rules", "@to set-with to @b.c with note TRAPPED\\n")
s = Server(exe, "-force-receive", "-nostdrules", "-smtplog", path("slog"), "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<a@b.c>")
c.cmd("RCPT TO:<x@b.c>")
c.cmd("RCPT TO:<y@b.c>")
c.quit()
time.sleep(0.3)
check(get("slog").count("TRAPPED") == 2, "both notes")
''')

plant("c33-long-line", "C33",
      "a line of more than 1024 bytes in the SMTP log",
      "log lines are cut off after 1023 bytes",
      [("sinksmtp.go", "\tbuf = append(buf, b...)\n\tn, err = log.writer.Write(buf)", "\tif len(b) > 1024 {\n\t\tbuf = append(append(buf, b[:1023]...), '\\n')\n\t} else {\n\t\tbuf = append(buf, b...)\n\t}\n\tn, err = log.writer.Write(buf)")],
      '''
r = put("rules", "@helo set-with all with note " + "x" * 1500 + "END\\n")
s = Server(exe, "-force-receive", "-smtplog", path("slog"), "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
c.quit()
time.sleep(0.3)
check("x" * 1500 + "END\\n" in get("slog"), "the whole note")
''')

plant("c34-helo-wins", "C34",
      "-helo and a matching -conncfg line with a hostname",
      "the -helo name is used although the connection's own settings have a hostname",
      [("sinksmtp.go", "\t\t\tif pd.myname != \"\" {\n\t\t\t\tsname = pd.myname", "\t\t\tif pd.myname != \"\" && srvname == \"\" {\n\t\t\t\tsname = pd.myname")],
      '''
f = put("cfg", "127.0.0.1 hostname=conn.b\\n")
s = Server(exe, "-force-receive", "-conncfg", f, "-helo", "helo.b")
check("conn.b" in Client(s).hi[1], "the connection's name")
s = Server(exe, "-force-receive", "-conncfg", f)
check("conn.b" in Client(s).hi[1], "the connection's name")
s = Server(exe, "-force-receive", "-helo", "helo.b")
check("helo.b" in Client(s).hi[1], "the general name")
''')

plant("c34-last-name", "C34",
      "a local address with two reverse DNS names and no -helo",
      "the server calls itself by the last name of its address",
      [("sinksmtp.go", "\t\t\tsname = nlst[0]\n", "\t\t\tsname = nlst[len(nlst)-1]\n")],
      '''
s = Server(exe, "-force-receive", ip="127.0.0.6", dns="6.0.0.127.in-addr.arpa PTR first.b\\n6.0.0.127.in-addr.arpa PTR second.b\\n")
check("first.b" in Client(s).hi[1], "the first name")
''')

plant("c35-seen-forever", "C35",
      "rules that break in one way, then in another, and then in the first way again",
      "a problem that was reported once since the server was started is never reported again",
      [("sinksmtp.go", "\tvar lastmsg string\n\tfor {", "\tseen := make(map[string]bool)\n\tfor {"),
       ("sinksmtp.go", "\t\tif nmsg != lastmsg {", "\t\tif !seen[nmsg] {"),
       ("sinksmtp.go", "\t\t\tlastmsg = nmsg\n", "\t\t\tseen[nmsg] = true\n")],
      '''
r = put("rules", "accept all\\n")
s = Server(exe, "-force-receive", "-r", r)
for t in "rejcet all\\n", "reject (\\n", "rejcet all\\n":
    put("rules", t)
    n = get("stderr").count("sinksmtp:")
    for i in range(2):
        check(Client(s).code("EHLO a.b") == 4, "broken")
    time.sleep(0.3)
    check(get("stderr").count("sinksmtp:") == n + 1, "reported once: " + t)
''')

plant("c35-only-permission", "C35",
      "a list file that cannot be opened for another reason than its permissions (a component of its path is a file)",
      "only permission problems with list files are reported",
      [("sinksmtp.go", "\t\tif !os.IsNotExist(err) {\n\t\t\twarnonce(\"error opening", "\t\tif os.IsPermission(err) {\n\t\t\twarnonce(\"error opening")],
      '''
put("plain", "x\\n")
r = put("rules", "@helo reject helo file:%s/list\\n@helo reject helo file:%s\\n" % (path("plain"), path("nosuch")))
s = Server(exe, "-force-receive", "-r", r)
check(Client(s).code("EHLO a.b") == 2, "accepted")
time.sleep(0.3)
check("plain/list" in get("stderr"), "reported")
check("nosuch" not in get("stderr"), "a missing list is fine")
''')

plant("c36-ehlo-only", "C36",
      "a client that says HELO instead of EHLO after STARTTLS",
      "TLS is only noticed at EHLO",
      [("sinksmtp.go", "\t\t\t\tif convo.TLSOn && !trans.tlson {\n", "\t\t\t\tif convo.TLSOn && !trans.tlson && evt.Cmd == smtpd.EHLO {\n")],
      CRT + '''
r = put("rules", "@from reject tls off\\n")
s = Server(exe, "-force-receive", "-c", path("crt"), "-k", path("key"), "-r", r)
for w in "EHLO", "HELO":
    c = Client(s, "127.0.0.7")
    c.cmd("EHLO a.b")
    check(c.code("MAIL FROM:<a@b.c>") == 5, "without TLS")
    c.cmd("RSET")
    starttls(c)
    c.cmd(w + " a.b")
    check(c.code("MAIL FROM:<a@b.c>") == 2, "with TLS after " + w)
''')

STATS = '''import json, urllib.request
pp = freeport()
def stats(*names):
    v = json.loads(urllib.request.urlopen("http://127.0.0.1:%d/debug/vars" % pp).read())["sinksmtp"]
    for n in names:
        v = v.get(n, {})
    return v or 0
'''

plant("c27-inline-comment", "C27",
      "a list entry with a '#' inside",
      "everything from a '#' on is taken for a comment in a list file, not only lines that start with it",
      [("sinksmtp.go", "\t\tline = strings.TrimSpace(line)\n", "\t\tline = strings.TrimSpace(strings.SplitN(line, \"#\", 2)[0])\n")],
      '''
l = put("list", "# comment\\n  #another\\na#b@c.d\\nx@c.d\\n")
r = put("rules", "reject from file:%s\\n" % l)
s = Server(exe, "-force-receive", "-nostdrules", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check(c.code("MAIL FROM:<x@c.d>") == 5, "plain entry")
check(c.code("MAIL FROM:<a#b@c.d>") == 5, "entry with #")
check(c.code("MAIL FROM:<a@c.d>") == 2, "no entry")
''')

plant("c37-tls-each", "C37",
      "a client that gives EHLO more than once after STARTTLS",
      "sessions under TLS are counted once per EHLO instead of once",
      [("sinksmtp.go", "\t\t\t\tif convo.TLSOn && !trans.tlson {\n\t\t\t\t\tevents.tlson.Add(1)\n", "\t\t\t\tif convo.TLSOn {\n\t\t\t\t\tevents.tlson.Add(1)\n\t\t\t\t}\n\t\t\t\tif convo.TLSOn && !trans.tlson {\n")],
      CRT + STATS + '''
s = Server(exe, "-force-receive", "-c", path("crt"), "-k", path("key"), "-pprof", "127.0.0.1:%d" % pp)
c = Client(s)
c.cmd("EHLO a.b")
starttls(c)
for i in range(3):
    check(c.code("EHLO a.b") == 2, "EHLO")
c.quit()
time.sleep(0.3)
check(stats("smtpcounts", "ehlo_tlson") == 1, "one session under TLS")
''')

plant("c37-hits-each", "C37",
      "a client in a blocklist that goes on for more than one command checked against it",
      "a blocklist hit is counted at every decision instead of once",
      [("sinksmtp.go", "\t// Count them:\n\tdblcounts.Add(c.dnsblhit)\n\n", ""),
       ("sinksmtp.go", "\tif lmsg == c.trans.lastmsg {\n\t\treturn", "\tdblcounts.Add(c.dnsblhit)\n\tif lmsg == c.trans.lastmsg {\n\t\treturn")],
      STATS + '''
r = put("rules", "set-with dnsbl bl.x with note listed\\n")
s = Server(exe, "-force-receive", "-smtplog", path("log"), "-r", r, "-pprof", "127.0.0.1:%d" % pp, dns="5.0.0.127.bl.x A 127.0.0.2\\n")
for n in 1, 2:
    c = Client(s, "127.0.0.5")
    c.cmd("EHLO a.b")
    c.cmd("EHLO a.b")
    c.cmd("MAIL FROM:<a@b.c>")
    c.cmd("RCPT TO:<a@b.c>")
    c.quit()
    time.sleep(0.3)
    h = stats("dnsbl_hits")
    check(h.get("bl.x", 0) + h.get("bl.x.", 0) == n, "one hit per session")
''')

plant("c37-force-twice", "C37",
      "two simultaneous connections of a client that both meet make-yakker",
      "a client marked by make-yakker in simultaneous sessions is counted once per session",
      [("sinksmtp.go", "\t\t\tevents.yakads.Add(1)\n\t\t\tevents.yakforces.Add(1)\n", ""),
       ("sinksmtp.go", "\t\tif cnt != yakCount || rsethit {\n", "\t\tevents.yakads.Add(1)\n\t\tevents.yakforces.Add(1)\n\t\tif cnt != yakCount || rsethit {\n")],
      STATS + '''
r = put("rules", "@helo set-with helo m with make-yakker\\n")
s = Server(exe, "-force-receive", "-smtplog", path("log"), "-dncount", "3", "-r", r, "-pprof", "127.0.0.1:%d" % pp)
a, b = Client(s, "127.0.0.5"), Client(s, "127.0.0.5")
a.cmd("EHLO m")
b.cmd("EHLO m")
a.quit()
time.sleep(0.3)
check(stats("events", "yakker_forces") == 1, "marked")
b.quit()
time.sleep(0.3)
check(stats("events", "yakker_forces") == 1 and stats("events", "yakker_adds") == 1, "marked once")
''')

plant("c33-prefix-apart", "C33",
      "two connections that are logged at the same time",
      "the connection id and the text of a line of the SMTP log are written one after the other, so that lines of several connections can mix",
      [("sinksmtp.go", "\t// we might as well create the buffer at the right size.\n\tbuf := make([]byte, 0, len(b)+len(log.prefix))\n\n\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n\tn, err = log.writer.Write(buf)\n\tif err == nil {", "\tlog.writer.Write(log.prefix)\n\tif err = log.writer.Flush(); err != nil {\n\t\treturn 0, err\n\t}\n\tn, err = log.writer.Write(b)\n\tif err == nil {")],
      '''
import threading, re
s = Server(exe, "-force-receive", "-smtplog", path("log"))
def go(ip):
    for i in range(25):
        c = Client(s, ip)
        for j in range(40):
            c.cmd("NOOP %d" % j)
        c.quit()
ts = [threading.Thread(target=go, args=("127.0.0.%d" % i,)) for i in range(2, 14)]
for t in ts: t.start()
for t in ts: t.join()
p = s.p.pid
for l in get("log").splitlines():
    check(re.match(r"%d/\\d+ ?\\D" % p, l) and l.count("%d/" % p) == 1, repr(l))
''')

plant("c38-log-pieces", "C38",
      "two connections whose messages are logged at the same time",
      "a line of the message log is written in pieces, so that lines of simultaneous messages can mix",
      [("sinksmtp.go", "\tvar outbuf bytes.Buffer\n\twriter := bufio.NewWriter(&outbuf)\n\tfmt.Fprintf(writer, \"%s [%s] from", "\twriter := logf\n\tfmt.Fprintf(writer, \"%s [%s] from"),
       ("sinksmtp.go", "\tfmt.Fprintf(writer, \"\\n\")\n\twriter.Flush()\n\tlogf.Write(outbuf.Bytes())\n", "\tfmt.Fprintf(writer, \"\\n\")\n")],
      '''
import threading, re
s = Server(exe, "-force-receive", "-l", path("log"))
def go(ip):
    c = Client(s, ip)
    c.cmd("EHLO a.b")
    for i in range(60):
        c.cmd("MAIL FROM:<a@b.c>")
        for j in range(20):
            c.cmd("RCPT TO:<a%d@b.c>" % j)
        c.message("A: b\\n\\ntext\\n")
    c.quit()
ts = [threading.Thread(target=go, args=("127.0.0.%d" % i,)) for i in range(2, 14)]
for t in ts: t.start()
for t in ts: t.join()
ls = get("log").splitlines()
check(len(ls) == 12 * 60, "%d lines" % len(ls))
for l in ls:
    check(l.count("[%d/" % s.p.pid) == 1 and l.count(" <a") == 21 - 1 + l.count("/ <a") and l.endswith("helo 'a.b'"), repr(l))
''')

plant("c38-unsaved-unlogged", "C38",
      "a message that cannot be saved",
      "a message is only logged once it is saved, so one that could not be saved has no line in the log",
      [("sinksmtp.go", "\tlogMessage(prefix, trans, logf)\n\tif trans.savedir == \"\" {\n\t\treturn", "\tif trans.savedir == \"\" {\n\t\tlogMessage(prefix, trans, logf)\n\t\treturn"),
       ("sinksmtp.go", "\treturn hash, err\n}\n\n// Given a SBL", "\tif err == nil {\n\t\tlogMessage(prefix, trans, logf)\n\t}\n\treturn hash, err\n}\n\n// Given a SBL")],
      '''
d = mkdir("save")
s = Server(exe, "-d", d, "-l", path("log"))
c = Client(s)
c.cmd("EHLO a.b")
for n in 1, 2:
    c.cmd("MAIL FROM:<a@b.c>")
    c.cmd("RCPT TO:<a@b.c>")
    r = c.message("A: b\\n\\ntext %d\\n" % n)[0]
    check(r // 100 == (2 if n == 1 else 4), "reply")
    check(len(get("log").splitlines()) == n, "one line per message")
    shutil.rmtree(d, ignore_errors=True)
''')

plant("c38-body-trim", "C38",
      "two messages whose bodies differ in the blank lines at their end",
      "the body hash leaves out line ends at the end of the body",
      [("sinksmtp.go", "\tbodyhash = genHash(body)\n", "\tbodyhash = genHash(bytes.TrimRight(body, \"\\r\\n\"))\n")],
      '''
s = Server(exe, "-force-receive", "-l", path("log"))
c = Client(s)
c.cmd("EHLO a.b")
for t in "text\\n", "text\\n\\n":
    c.cmd("MAIL FROM:<a@b.c>")
    c.cmd("RCPT TO:<a@b.c>")
    c.message("A: b\\n\\n" + t)
h = [l.split(" body ")[1].split()[0] for l in get("log").splitlines()]
check(len(h) == 2 and h[0] != h[1], "different bodies")
''')

plant("c07-clause-default", "C07",
      "a set-with message and then a compact rule whose second or later clause matches and has a message of its own",
      "only the first clause of a compact rule overrides options that are already set",
      [("rnodes.go", "\t\t\tc.withprops[k] = v\n", "\t\t\tif _, ok := c.withprops[k]; i == 0 || !ok {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}\n")],
      '''
r = put("rules", "@from set-with all with message GENERAL\\n@from set-with from x@y with message ONE; from @b.c with message TWO\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
check("TWO" in c.cmd("MAIL FROM:<a@b.c>")[1], "the later one counts")
c = Client(s)
c.cmd("EHLO a.b")
check("GENERAL" in c.cmd("MAIL FROM:<a@b.d>")[1], "only the first matches")
''')

plant("c08-miss-clears", "C08",
      "a set-with rule that matches followed by a rule with a missing or empty list file in the same phase",
      "a rule neutralised by its file also drops the options that earlier rules have set",
      [("rules.go", "\t\t\t//fmt.Printf(\" ... rulemiss set, skip\\n\")\n", "\t\t\tc.withprops = make(map[string]string)\n")],
      '''
r = put("rules", "@from set-with from @b.c with message HELLO\\n@from reject from %s\\n" % path("nosuch"))
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
c.cmd("EHLO a.b")
k, m = c.cmd("MAIL FROM:<a@b.c>")
check(k // 100 == 2 and "HELLO" in m, "the option of the other rule")
''')

plant("c22-parent-domain", "C22",
      "addresses in a domain and then in a subdomain of it in one session, with different DNS",
      "the verdict about a domain is also used for its subdomains later in the session",
      [("rules.go", "\tif c.domvalid[domain] != nil {\n\t\treturn *c.domvalid[domain]\n\t}\n", "\tfor d := domain; d != \"\"; {\n\t\tif c.domvalid[d] != nil {\n\t\t\treturn *c.domvalid[d]\n\t\t}\n\t\tidx := strings.IndexByte(d, '.')\n\t\tif idx == -1 {\n\t\t\tbreak\n\t\t}\n\t\td = d[idx+1:]\n\t}\n")],
      '''
r = put("rules", "@to accept to-has resolves\\n@to reject all\\n")
s = Server(exe, "-force-receive", "-r", r, dns="good.org A 130.0.0.1\\n")
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<>")
check(c.code("RCPT TO:<a@bad.good.org>") == 5, "no such domain")
check(c.code("RCPT TO:<a@good.org>") == 2, "a good domain")
c = Client(s)
c.cmd("EHLO a.b")
c.cmd("MAIL FROM:<>")
check(c.code("RCPT TO:<a@good.org>") == 2, "a good domain")
check(c.code("RCPT TO:<a@bad.good.org>") == 5, "no such domain")
''')

plant("c06-third-clause", "C06",
      "a compact rule with three or more clauses of which an early one needs HELO or MAIL FROM data and the last none",
      "only the last clause of a long compact rule says when the rule can be checked",
      [("rparse.go", "\t\trc := newRClause()\n", "\t\trc := newRClause()\n\t\tif len(p.currule.clauses) == 2 && p.currule.requires < pRto {\n\t\t\tp.currule.requires = pAny\n\t\t}\n"),
       ("rparse.go", "// As is traditional, we cheat by not recursing.\n", "// As is traditional, we cheat by looping.\n")],
      '''
r = put("rules", "reject from a@b.c; from d@b.c; ip 127.0.0.7\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s, "127.0.0.7")
check(c.code("EHLO a.b") == 2, "nothing to check at EHLO")
check(c.code("MAIL FROM:<x@y.z>") == 5, "the rule at MAIL FROM")
''')

plant("c04-helo-sticky", "C04",
      "HELO and then EHLO in one session with rules on 'helo-has helo' or 'ehlo'",
      "once a client has used HELO, later EHLOs of the session still count as HELO",
      [("rules.go", "\t\tc.helocmd = evt.Cmd\n", "\t\tif c.helocmd != smtpd.HELO {\n\t\t\tc.helocmd = evt.Cmd\n\t\t}\n")],
      '''
r = put("rules", "@helo stall helo-has helo helo a.b\\n@helo reject helo-has helo helo c.d\\n")
s = Server(exe, "-force-receive", "-r", r)
c = Client(s)
check(c.code("HELO a.b") == 4, "HELO")
check(c.code("EHLO c.d") == 2, "EHLO")
''')


def sh(*a):
    return subprocess.run(a, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    want = sys.argv[1:]
    kit = os.path.join(V, "tools", "demokit")
    for id, prop, needs, breaks, edits, demo in P:
        if want and id not in want:
            continue
        if sh("git", "status", "--porcelain").stdout.strip():
            sys.exit("/repo is not clean")
        out = os.path.join(V, "seeded", id)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(kit, out)
        with open(os.path.join(out, "demo.py"), "w") as fp:
            fp.write("from kit import *\n\n" + ("" if "exe = build" in demo else "exe = build()\n") + demo.strip("\n") + "\n")
        with open(os.path.join(out, "meta.json"), "w") as fp:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fp, indent=1)
        try:
            for f, old, new in edits:
                p = os.path.join("/repo", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(id, "edit matches", s.count(old), "times:", old)
                    sys.exit(1)
                open(p, "w").write(s.replace(old, new))
            fmt = sh("gofmt", "-l", ".").stdout
            with open(os.path.join(out, "patch.diff"), "w") as fp:
                fp.write(sh("git", "diff").stdout)
        finally:
            sh("git", "checkout", "--", ".")
        print("wrote", id)


main()
