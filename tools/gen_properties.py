#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so that they can be edited as text."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Address patterns match exactly the documented set of addresses",
 "For every address and every address pattern, 'from'/'to' match exactly when the documentation says so: '<>' only the null sender, 'a@b' literally, 'a@' the local part at any (or no) domain, '@b' exactly that domain, '@.b' that domain and every subdomain and nothing that merely ends in the same letters, '@' anything with a local part and a domain. Matching ignores letter case, and an address that starts or ends with '@' matches nothing but a literally equal pattern.",
 ["inputs"], "every address string and pattern string up to the stated length (and longer ones with a fixed skeleton and symbolic parts)",
 "rules_test.go has 10 positive and 9 negative hand-picked pairs (and cannot even be built here); the property is over all pairs.",
 ["rules.go", "rnodes.go"], [("matchAddress", "rules.go"), ("sDotIter.Next", "rules.go"), ("MatchN.Eval / getMatchList", "rnodes.go, rules.go")],
 ["result of evaluating a rule 'from PAT' / 'to PAT' against an address"])
prop("C02", "Hostname patterns match exactly the name or its subdomains",
 "For every host name and host pattern, 'helo', 'host' and the host parts of 'source' match exactly when the pattern 'b' equals the name, or the pattern '.b' equals the name b or a true subdomain of b, ignoring case and ignoring one trailing dot of the name unless the pattern itself ends in a dot. 'host' and 'source' consult every verified reverse-DNS name and no unverified one, and 'source X' is exactly 'host X or ehlo X or from @X'. No name, including an empty one, makes the evaluation fail.",
 ["inputs"], "every host name and pattern up to the stated length; up to 2 verified names",
 "rules_test.go tries 5 matching and 5 non-matching pairs, none with an empty name.",
 ["rules.go", "rnodes.go"], [("matchHost", "rules.go"), ("newHostNode/newHeloNode/newSourceNode", "rnodes.go")],
 ["result of evaluating 'helo PAT', 'host PAT', 'source PAT'"])
prop("C03", "Address attributes classify every address as documented",
 "For every MAIL FROM or RCPT TO address, the attributes noat, route, quoted, unqualified, garbage (and 'bad' = noat,quoted,unqualified,garbage) hold exactly when the documented condition on the address text holds, and the null sender has none of them. resolves, baddom and unknown are mutually exclusive, are defined exactly for addresses that are not noat, route, unqualified or garbage, and then reflect the DNS verdict for the text after the '@'.",
 ["inputs"], "every address up to the stated length; every DNS verdict",
 "rules_test.go classifies 14 addresses and never exercises 'bad' or the DNS attributes with a real lookup.",
 ["rules.go", "rnodes.go"], [("getAddrOpts", "rules.go"), ("Option bit sets", "rnodes.go")],
 ["result of 'from-has X' and 'to-has X' for each attribute X"])
prop("C04", "HELO and reverse-DNS attributes classify every client as documented",
 "For every HELO/EHLO command and name, helo-has none/bogus/helo/ehlo/nodots/bareip/properip/ip/myip/remip/otherip hold exactly as documented; exactly one of helo/ehlo holds, and an IP name has exactly one of myip/remip/otherip, the client's own address never being reported as another's. For every outcome of the reverse lookup, dns nodns/exists/noforward/inconsistent/good hold exactly as documented.",
 ["inputs"], "every HELO name up to the stated length plus IP-shaped names; every combination of reverse DNS outcomes",
 "rules_test.go checks 9 names and 6 DNS combinations.",
 ["rules.go"], [("heloGetter", "rules.go"), ("dnsGetter", "rules.go")],
 ["result of 'helo-has X' and 'dns X'"])
prop("C05", "Rule expressions mean what the grammar says",
 "Every rule text either is rejected as a syntax error or evaluates, for every truth value of its match operations, to the value given by the documented grammar: juxtaposition is 'and', 'or' binds tighter than juxtaposition, 'not' applies to the single following term, parentheses group. Texts outside the grammar (missing operands, unbalanced parentheses, unknown words, an empty 'with', a set-with without options) are always rejected.",
 ["inputs", "programs"], "every token sequence up to the stated number of tokens over the full set of structural tokens, and every truth assignment of the leaves",
 "rparse_test.go evaluates about 35 fixed rules in one context and rejects about 45 fixed texts.",
 ["rparse.go", "rnodes.go"], [("pAndl/pOrl/pTerm/pNot/pParen/pRClause/pWith", "rparse.go"), ("AndL/OrN/NotN Eval", "rnodes.go")],
 ["value of a parsed rule for a given assignment", "parse error or not"])
prop("C06", "A rule is checked only in phases where its data exists",
 "A rule without an explicit phase never takes effect before the phase in which all the information it mentions is available, and is checked in every phase from then on; a rule with an explicit phase takes effect in exactly that phase and no other. A rule whose explicit phase precedes what its operations need is always refused when the rules are loaded.",
 ["inputs", "programs", "histories"], "every rule built from any match operations (each operation, and combinations with and/or/not), any explicit phase, and any SMTP phase",
 "No existing test calls the decision function at all (rules_test.go says so); one parse test covers one bad phase.",
 ["rparse.go", "rules.go"], [("minReq / itemDbl special case / deferto<requires check", "rparse.go"), ("phase skipping in Decide", "rules.go")],
 ["verdict per phase for a rule", "parse error for impossible phases"])
prop("C07", "First matching rule decides; set-with only sets options",
 "In every phase the verdict is the action of the first eligible non-set-with rule that matches, in rule order, or 'no verdict' (treated as accept) if none does. The options in force are exactly those of the matching set-with rules before it, later ones overriding earlier ones, overridden by the deciding rule's own options; within a compact rule only the first matching clause contributes; nothing leaks from one decision to the next or from non-matching rules.",
 ["inputs", "programs", "histories"], "every list of up to the stated number of rules and clauses with arbitrary actions, phases, options and truth values; consecutive decisions",
 "The decision function has no tests; TestWithSetting checks one pair of rules outside it.",
 ["rules.go", "rnodes.go"], [("Decide", "rules.go"), ("Rule.check", "rnodes.go")],
 ["verdict and options after each decision"])
prop("C08", "An empty, missing or unreadable data file neutralises its rule",
 "If evaluating a rule consults an address, host or IP list file that is missing, empty, or fails while being read, that rule does not match and does not set options, whatever 'not', 'or' or further operations surround the operation; other rules are unaffected. If the operation is not reached because an earlier part already decided the rule, the file does not matter. A list file that has entries is used in full.",
 ["inputs", "programs", "fault_sequences"], "every rule expression up to the stated size over file-backed and other operations, every file state (missing, open error, read error, empty, with entries)",
 "rparse_test.go has one rule with one empty file.",
 ["rules.go", "rnodes.go", "sinksmtp.go"], [("MatchN.Eval / rulemiss", "rnodes.go"), ("Rule.check, Decide rulemiss handling", "rnodes.go, rules.go"), ("loadList / getMatchList", "sinksmtp.go, rules.go")],
 ["verdict with a given file state"])
prop("C09", "The null sender is never refused; the refusal falls on each RCPT TO",
 "MAIL FROM:<> is never answered with 4xx or 5xx by any rules. If the rules would have refused it, every following RCPT TO of that transaction gets exactly that verdict and its options (message, DNSBL information), and this stops at the next MAIL FROM or HELO/EHLO; non-null senders are refused at once and never cause a later deferred refusal.",
 ["histories", "inputs", "programs"], "every command history up to the stated length, every rule verdict at each step",
 "No test runs the decision function over a conversation.",
 ["rules.go"], [("Decide: deferred result", "rules.go")], ["verdict of each command in a history"],
 [dict(name="deferred verdict", meaning="refusal waiting for RCPT TO", where="Context in rules.go")])
prop("C10", "At DATA and message time rules see every accepted recipient",
 "A rule that looks at RCPT TO addresses and is checked at DATA or after the message matches exactly when it matches for at least one accepted recipient of the current transaction, taking recipients one by one; refused recipients and recipients of earlier transactions are never considered.",
 ["histories", "inputs"], "every list of accepted recipients up to the stated count, every per-recipient truth value, both phases",
 "No existing test reaches this code.",
 ["rules.go", "sinksmtp.go"], [("ruleForEachRcpt", "rules.go"), ("trans.rcptto maintenance", "sinksmtp.go process")],
 ["verdict at DATA / message"])
prop("C11", "Each command gets exactly the reply class the rules decided",
 "In every session, each HELO/EHLO, MAIL FROM, RCPT TO, DATA and received message is answered 2xx/3xx exactly when the rules accept it or are silent, 5xx exactly when they reject and 4xx exactly when they stall, with the rule's message as reply text when one is set. A reject at connect time closes the connection before anything is said, and a stall at connect time has no effect.",
 ["histories", "inputs", "configurations"], "every event history up to the stated length, every verdict, with and without message option",
 "The session loop has no tests at all.",
 ["sinksmtp.go"], [("decider", "sinksmtp.go"), ("doAccept", "sinksmtp.go"), ("process", "sinksmtp.go")],
 ["the reply calls made on the SMTP connection, per command"])
prop("C12", "Command line filters come before, and win over, rule files",
 "With -M every received message is refused with 5xx no matter what the rule files say, and is still logged and saved; -fromreject, -heloreject (from MAIL FROM on) and -toaccept refuse exactly the senders, HELO names and recipients they are documented to, unless their list is empty or missing. Unless -nostdrules is given, senders and recipients that are bad or route addresses and empty HELO names are always refused, whatever rule files say.",
 ["configurations", "inputs", "programs"], "every combination of the options and file contents, any rule-file verdict, symbolic addresses",
 "No test builds the option rules.",
 ["sinksmtp.go"], [("buildRules", "sinksmtp.go"), ("setupRules order", "sinksmtp.go")],
 ["verdicts in each phase with the options on"])
prop("C13", "Broken rule files stall everything and never apply in part",
 "If any rules file (or file it includes) is missing, unreadable or has a syntax error anywhere, the connection answers 4xx to everything and none of the rules from any file take effect; a file with no error is never treated as broken. When all files load, exactly the built-in rules followed by the rules of every file in the order given are in force, included files in place.",
 ["inputs", "fault_sequences", "configurations"], "up to the stated number of files, each with symbolic faults at open/read and symbolic content errors at any line, includes",
 "No test loads rules from files or injects a fault.",
 ["sinksmtp.go", "rparse.go"], [("setupRules/accumRules/loadRules", "sinksmtp.go"), ("pInclude/pFile/Parse", "rparse.go")],
 ["rule set in force and verdicts of a connection"])
prop("C14", "A connection is judged only by the rules loaded when it began",
 "The rules in force for a connection are the built-in rules plus the rule files as they were when it connected; other connections, before, after or at the same time, loading the same or changed files never alter, reorder or mix into them.",
 ["histories", "schedules", "configurations"], "every pair or triple of connections with different rule file contents at each load, every option set (hence every number of built-in rules)",
 "Tests never set up two connections.",
 ["sinksmtp.go"], [("setupRules/accumRules", "sinksmtp.go"), ("baserules shared by all connections", "sinksmtp.go main")],
 ["rule set of the first connection after the second one has loaded"])
prop("C15", "The recorded envelope is exactly the accepted transaction",
 "Whatever sequence of commands, refusals, resets and repeated transactions a client uses, each received message is logged and saved with the HELO name last accepted, the sender accepted for this transaction, exactly the recipients accepted since that MAIL FROM in order, the client and server addresses, the TLS state, and the exact message bytes. Nothing refused and nothing from an earlier transaction ever appears.",
 ["histories", "inputs"], "every event history up to the stated length, every verdict per command",
 "The session loop has no tests.",
 ["sinksmtp.go"], [("process", "sinksmtp.go"), ("msgDetails / logMessage", "sinksmtp.go")],
 ["message log line and saved file content"])
prop("C16", "An acknowledged message is completely on disk",
 "When messages are to be saved, a message is answered with 2xx, or with a 5xx naming its ID, only if a file of that name in the save directory holds the full metadata and message; an error while creating, writing or closing that file leads to 4xx regardless of the rules, and a later retry is not fooled by what the failed attempt left behind. An existing complete file is never altered, and that case is not an error.",
 ["fault_sequences", "histories", "inputs"], "every fault (error or short write) at each file operation, one or two delivery attempts, each naming scheme",
 "No test writes a message file or injects an I/O error.",
 ["sinksmtp.go"], [("handleMessage", "sinksmtp.go"), ("GOTDATA case of process", "sinksmtp.go")],
 ["files in the save directory, reply class"])
prop("C17", "Saved file names depend on exactly the documented information",
 "Under -save-hash msg two messages get the same file name exactly when their message bytes are equal; under full exactly when bytes and all metadata other than the id line are equal; under all exactly when everything including connection id, remote port and second of arrival is equal. The ID reported to the client is the name of the saved file, or the message hash when nothing is saved.",
 ["inputs", "histories"], "every pair of transactions differing in any subset of fields (hash taken as collision-free)",
 "No test computes a file name.",
 ["sinksmtp.go"], [("handleMessage hashtype switch", "sinksmtp.go"), ("msgDetails, genHash", "sinksmtp.go")],
 ["names of files created; ID returned"])
prop("C18", "Do-nothing clients are stalled exactly after the configured failures",
 "With -dncount N and logging on, a client address is stalled (4xx to everything, session not logged) exactly when its last N or more counted sessions failed to reach the minimum phase, each within the -dndur window of the one before, and the last one is less than -dndur old; one session that reaches the minimum phase clears its record, and sessions with TLS errors, broken rules or while stalled do not count. Other addresses are unaffected, and with -dncount 0 nobody is stalled.",
 ["histories", "configurations", "inputs"], "every history of sessions up to the stated length with arbitrary times and outcomes; any pre-existing record (inductive step)",
 "No test touches the client tables or the session end.",
 ["sinksmtp.go"], [("ipMap Add/Set/Del/Lookup", "sinksmtp.go"), ("process start and end", "sinksmtp.go")],
 ["whether a session is stalled; table contents after a session"],
 [dict(name="yakkers", meaning="per-IP failure count and last time", where="sinksmtp.go")])
prop("C19", "make-yakker marks the client whatever happens later in the session",
 "If a rule with make-yakker matches at any point of a session's SMTP dialogue and -dncount is in effect, then when the session ends normally the client is treated as a do-nothing client, no matter what later commands match or how far the session got. If no such rule matched, the session never forces this.",
 ["histories", "programs"], "every event history up to the stated length, the make-yakker rule matching at any subset of the commands",
 "No test reaches it.",
 ["sinksmtp.go", "rules.go"], [("process end: make-yakker", "sinksmtp.go"), ("withprops reset in Decide", "rules.go")],
 ["do-nothing table after the session"])
prop("C20", "TLS is offered exactly when it should be",
 "TLS is offered on a connection exactly when certificates are configured for it, the client has had fewer than two TLS failures with the last less than 72 hours ago, and no connect-time rule set tls-opt off; a client certificate is requested only from clients with no recent failure and without tls-opt no-client. Each TLS setup failure counts once for that client, and no failure of one client affects another.",
 ["histories", "configurations", "inputs"], "any failure record and age, any certificate source, any tls-opt, any sequence of TLS errors up to the stated length",
 "No test reaches it.",
 ["sinksmtp.go"], [("process TLS set-up", "sinksmtp.go"), ("TLSERROR case", "sinksmtp.go"), ("tls-opt in decider", "sinksmtp.go")],
 ["TLS configuration handed to the SMTP connection"],
 [dict(name="notls", meaning="per-IP TLS failures", where="sinksmtp.go")])
prop("C21", "Per-connection settings come from the first matching line",
 "For every -conncfg file and local address, greeting name and certificates come from the first line whose LOCAL is '*', the exact address or address:port, or a network containing it, and from the command line only if no line matches; a matching line without certificates turns TLS off, one without a hostname keeps the default name. Every line of the file counts, and a malformed file is reported and ignored as a whole.",
 ["configurations", "inputs"], "every file of up to the stated lines with symbolic field choices, symbolic local IPv4 address, faults while reading",
 "conncfg.go has no tests.",
 ["conncfg.go", "sinksmtp.go"], [("readConnFile, destMap.find", "conncfg.go"), ("connfile block in process", "sinksmtp.go")],
 ["greeting name and TLS certificates of a connection"])
prop("C22", "A mail domain is judged deliverable exactly as documented",
 "For every combination of DNS answers, a domain is 'resolves' exactly when no MX is '.' or 'localhost.' and at least one MX (or, without MX, the domain itself) has addresses that are all global and non-private; 'baddom' when that is definitely false; 'unknown' when a temporary DNS failure prevents a definite answer. One good MX outweighs temporary failures of others and those outweigh bad ones; a null or localhost MX outweighs everything.",
 ["fault_sequences", "inputs"], "up to 3 MX records with arbitrary names and preferences, each with up to 2 arbitrary IPv4/IPv6 addresses or any class of DNS error, in any order",
 "mxresolve_test.go looks up five real domains over the network and cannot run here.",
 ["mxresolve.go"], [("ValidDomain", "mxresolve.go"), ("checkIP", "mxresolve.go"), ("isTemporary", "mxresolve.go")],
 ["verdict for a domain"])
prop("C23", "A reverse DNS name counts as verified only if it maps back",
 "For every set of DNS answers, each name returned for the client address ends up in exactly one class: verified if and only if its forward lookup succeeds and contains the client address, no-forward if and only if the forward lookup fails, inconsistent otherwise. No forged name is ever verified, none is lost or duplicated, and if the reverse lookup fails there are no names.",
 ["fault_sequences", "inputs"], "up to 3 names each with up to 2 arbitrary IPv4/IPv6 addresses or an error",
 "No test exists for rdns.go.",
 ["rdns.go"], [("LookupAddrVerified", "rdns.go")], ["the three name lists; 'host'/'dns' rules"])
prop("C24", "DNS blocklist rules query the right names and match on any answer",
 "'dnsbl D' matches exactly when the client's address is IPv4 and its reversed octets under D have an address; 'dbl SRCS D' exactly when, for at least one selected source, the HELO name, any reverse-DNS name (verified or not, without its final dot) or the sender's domain under D has an address. A failed lookup never matches, each hit blocklist is reported once per decision, and repeated checks in a session agree with the answer already obtained.",
 ["inputs", "fault_sequences", "histories"], "symbolic client addresses, HELO names, senders, name lists and DNS answers; repeated evaluations",
 "rparse_test.go checks a handful of fixed names through a pre-filled cache.",
 ["rnodes.go", "rules.go"], [("DNSblN.Eval, DblNode.Eval", "rnodes.go"), ("getDnsblRes, addDnsblHit", "rules.go")],
 ["DNS names looked up; rule result; list of hits"])
prop("C25", "Rule text is split into tokens as documented",
 "For every rule text: words are split at blanks, line ends and the punctuation ( ) , ;  comments (lines starting with '#') and blank lines vanish, a backslash at end of line joins lines, a quoted string yields exactly its content with \\\" and \\\\ unescaped and may span lines, and a comma followed by blank or line end, an unterminated quote and an empty file: are errors. Any string can be written as a quoted string and is read back unchanged; tokens carry their true position and words that are keywords are recognised only when unquoted.",
 ["inputs"], "every text up to the stated length over all byte values; longer texts with fixed parts",
 "rlex_test.go lexes 24 fixed texts.",
 ["rlex.go"], [("lexLineStart/lexLineRunning/lexWord/lexQuote/lexSpecial/lexComment", "rlex.go")],
 ["token stream (type, value, position)"])
prop("C26", "Any rule text is accepted or refused, never a crash or a hang",
 "For every byte string given as rules, loading ends with either a set of rules or an error; it never panics, never blocks, and leaves no goroutine behind. Whatever was accepted can then be evaluated in any phase for any client without crashing.",
 ["inputs", "programs"], "every text up to the stated length, every token sequence up to the stated number of tokens; evaluation in every phase",
 "Tests use fixed texts; TestNoLexerGoroutine checks one.",
 ["rlex.go", "rparse.go", "rnodes.go", "rules.go"], [("Parse / drain", "rparse.go, rlex.go"), ("consume panic on error token", "rparse.go"), ("getMatchList, matchHost indexing", "rules.go")],
 ["return of Parse, goroutines alive afterwards, evaluation result"])
prop("C27", "Every entry of an address or host list file is honoured",
 "Reading a pattern file yields exactly its lines in order, trimmed of surrounding blanks and lower-cased, leaving out blank lines and lines starting with '#'; the last line counts whether or not it ends with a newline. A read error yields no entries at all rather than some.",
 ["inputs", "fault_sequences"], "every file content up to the stated length over all ASCII bytes; a read error at any point",
 "sinksmtp_test.go reads one fixed list that ends in a newline.",
 ["sinksmtp.go"], [("readList / loadList", "sinksmtp.go")], ["list of patterns obtained"])
prop("C28", "No client and no rule option can crash the server",
 "Whatever a client sends and whatever accepted rules and options are in force (with or without logs, TLS, save directory, stalled or not, IPv4 or IPv6), handling a connection ends by returning: it never panics, never deadlocks, and always closes the connection.",
 ["histories", "inputs", "configurations"], "every event history up to the stated length with symbolic arguments, under every combination of optional facilities, with rules exercising every match operation and option",
 "The session loop has no tests.",
 ["sinksmtp.go", "rules.go", "rnodes.go"], [("process", "sinksmtp.go"), ("decider", "sinksmtp.go"), ("logDnsbls/getSBLHits", "sinksmtp.go")],
 ["normal return of the connection handler; connection closed"])
prop("C29", "Shared client tables and counters stay correct under concurrency",
 "For every interleaving of sessions from several connections, operations on the do-nothing, TLS-failure and blocklist-hit tables behave as if performed one at a time: no update is lost, no two accesses race, and no operation ever leaves a table locked.",
 ["schedules"], "every interleaving (at every lock operation and shared memory access) of two or three concurrent operations from any prior table state",
 "Tests are sequential.",
 ["sinksmtp.go"], [("ipMap locking", "sinksmtp.go"), ("dnsblCounts locking", "sinksmtp.go")],
 ["table contents and return values after concurrent operations"])
prop("C30", "The server refuses to start in unsafe or broken configurations",
 "For every combination of command line options, the server starts listening only if it can keep or knowingly drop mail (-d, -M or -force-receive), -save-hash is valid and msg has -l, certificate and key are both given or both absent and load, -dncount has -smtplog and a window of at least a second, -minphase is valid, all log files open, the save directory is writable, and all rules and -conncfg files load; otherwise it exits with an error before listening. Every accepted connection is handed to its own handler under a distinct id, and a failure to accept one connection does not end the accepting of others.",
 ["configurations", "fault_sequences"], "every combination of option presence/values and every outcome of the start-up file operations",
 "main has no tests.",
 ["sinksmtp.go"], [("main", "sinksmtp.go")], ["whether a listener is opened; exit status"])
prop("C31", "IP patterns match exactly the address or network named",
 "'ip ARG' matches exactly when the client's address equals the given address or lies in the given CIDR network, for IPv4 and IPv6 and for IPv4-mapped forms, and with a file when some valid entry does; invalid entries in files match nothing. An ARG that is neither an address, a network nor a filename is refused when the rules are loaded.",
 ["inputs"], "every IPv4 client address against arbitrary addresses and prefixes with symbolic octets and lengths; structured IPv6; every short argument text",
 "Four fixed rules in rparse_test.go.",
 ["rules.go", "rparse.go"], [("matchIp", "rules.go"), ("pIPArg", "rparse.go")], ["result of 'ip ARG'", "parse error or not"])
prop("C32", "A message is saved in the directory its session's rules chose last",
 "Every message received is written to exactly one directory: the one given by the savedir option of the last rule with one that matched so far in its session (it stays in force over later commands, RSETs, refused commands and transactions), or the -d directory if there was none, or nowhere if neither is given. A savedir chosen in one session has no effect on any other session.",
 ["histories", "programs", "schedules"], "every placement of the rules in the phases, every match outcome, every history of transactions up to the stated length, and a second session at any point",
 "No test saves a message.",
 ["sinksmtp.go"], [("decider: savedir option", "sinksmtp.go"), ("handleMessage", "sinksmtp.go")],
 ["directories in which files appear"],
 [dict(name="trans.savedir", meaning="directory chosen so far", where="smtpTransaction in sinksmtp.go")])
prop("C33", "The SMTP and do-nothing logs tell every session apart and miss nothing",
 "With -smtplog, everything said in a session that is not stalled is in the log, in order, each line starting with that connection's id, whatever other connections do at the same time and however long the lines are; what was in the log before stays. At every decision the note then in force (that of the last matching rule with one) is logged once, as are a connection dropped at once, a TLS client certificate with its name and whether it verifies, and a client being marked as do-nothing. Nothing of a stalled session is logged; with -dnlog there is one line for each stalled connection and each client marked, with connection id and both addresses.",
 ["histories", "schedules", "inputs"], "every match outcome of note rules per phase, every interleaving of two sessions up to the stated preemptions, line lengths beyond the buffer size, every history of sessions up to the stated length",
 "No test runs a session.",
 ["sinksmtp.go"], [("smtpLogger.Write", "sinksmtp.go"), ("decider: rule notes", "sinksmtp.go"), ("process: stalled sessions, yakLog", "sinksmtp.go"), ("tlsClientLog", "sinksmtp.go"), ("openlogfile", "sinksmtp.go")],
 ["contents of the log files"])
prop("C34", "The server gives the right name and is slow only where it should be",
 "The name in the greeting is the hostname of the first matching -conncfg line if that has one, else the -helo name, else the first reverse-DNS name of the local address without its final dot, else the local address and port. Output is sent slowly exactly with -S or to a stalled do-nothing client.",
 ["configurations", "inputs", "histories"], "every combination of the options, local addresses and DNS answers with symbolic names; every history of sessions up to the stated length",
 "No test opens a connection.",
 ["sinksmtp.go", "conncfg.go"], [("process: sname, cfg.Delay", "sinksmtp.go")], ["greeting; delay used for output"])
prop("C35", "Broken rules, lists and connection settings are reported on standard error",
 "Whenever a rules file (or a file it includes), an address, host or IP list (other than one that does not exist), or the -conncfg file cannot be loaded for a connection, a message with the file's name appears on standard error. For rules and lists the same message is not repeated until a different one was given, also not by simultaneous connections. Nothing is reported when everything loads.",
 ["histories", "fault_sequences", "schedules"], "every sequence of file states up to the stated number of connections; two simultaneous connections in every interleaving with one preemption",
 "No test produces a warning.",
 ["sinksmtp.go"], [("warnonce, warnbackend", "sinksmtp.go"), ("setupRules, loadList", "sinksmtp.go")], ["standard error"])
prop("C36", "'tls on' and 'tls off' match the connection's actual TLS state",
 "'tls on' matches exactly when TLS is on for the connection at the time of the check and 'tls off' exactly when it is not; neither is checked before MAIL FROM, whatever commands, refusals, transactions and resets came before or after STARTTLS.",
 ["histories", "programs"], "every command history up to the stated length with STARTTLS at any point; plain, negated and clause forms, in every phase",
 "No test runs a session.",
 ["rnodes.go", "sinksmtp.go"], [("TlsN.Eval", "rnodes.go"), ("process: trans.tlson", "sinksmtp.go")], ["verdicts and messages of commands"])

prop("C37", "The published statistics count exactly what happened",
 "With -pprof, whenever no session is active the published counters equal what happened since the start: connections; for EHLO/HELO, MAIL FROM, RCPT TO and DATA the commands that were judged and, of those, the accepted ones; message texts received; sessions that went on under TLS; sessions ended by QUIT and by a broken connection; TLS setup failures and connections not offered TLS for them; connections stalled as do-nothing clients, clients marked as such, and those marked by make-yakker; connections made while the rules were broken; with -smtplog, hits per blocklist (counted once while the lists hit in a session stay the same); and, with -statsperip or several addresses, connections per local address. Simultaneous connections lose no count.",
 ["histories", "schedules"], "every command history up to the stated length, every history of sessions of several clients up to the stated length, two simultaneous sessions in every interleaving up to the stated preemptions",
 "No test runs a session.",
 ["sinksmtp.go"], [("setupExpvars, events", "sinksmtp.go"), ("process", "sinksmtp.go"), ("logDnsbls", "sinksmtp.go")], ["published expvar counters"])

prop("C38", "The message log has one complete line per message, with true hashes",
 "With -l, every message received adds exactly one complete line to the log (or to standard output for '-'), in the order received in a session, whether it is then accepted, refused or cannot be saved and whatever other connections do at the same time; nothing else adds a line and what was in the log before stays. The line has the connection's id, client address, sender, recipients, length, local address and HELO name. The hash in it is the SHA1 of the message and, for a message with well-formed headers, the body hash is the SHA1 of exactly what follows the first blank line; the saved file has the same two hashes.",
 ["histories", "schedules", "inputs"], "every history of transactions up to the stated length and outcome, two simultaneous messages in every interleaving up to the stated preemptions, every body up to the stated length",
 "No test runs a session.",
 ["sinksmtp.go"], [("logMessage, handleMessage", "sinksmtp.go"), ("getHashes", "sinksmtp.go"), ("openlogfile", "sinksmtp.go")], ["-l log file", "saved message file"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
