"""Demonstration support: builds the program from the current directory with
the stand-in smtpd beside this file, in a scratch directory, and runs it."""
import os, shutil, socket, subprocess, sys, tempfile, time, atexit, glob, ssl

here = os.path.dirname(os.path.abspath(__file__))
work = tempfile.mkdtemp(prefix="demo")
procs = []


def cleanup():
    for p in procs:
        p.kill()
        p.wait()
    shutil.rmtree(work, ignore_errors=True)


atexit.register(cleanup)
genv = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
    genv["PATH"] = "/opt/veriftools/go1.27.3/bin:" + genv.get("PATH", "/usr/bin:/bin")
genv.setdefault("HOME", "/root")


def source(extra=()):
    """the program's source in the scratch directory"""
    d = os.path.join(work, "src")
    os.mkdir(d)
    for f in glob.glob("*.go"):
        if not f.endswith("_test.go"):
            shutil.copy(f, d)
    for f in list(extra) + ["zz_demo.go"]:
        shutil.copy(os.path.join(here, f), d)
    shutil.copytree(os.path.join(here, "smtpd"), os.path.join(d, "smtpd"))
    with open(os.path.join(d, "go.mod"), "w") as fp:
        fp.write("module github.com/siebenmann/sinksmtp\n\ngo 1.17\n\nrequire github.com/siebenmann/smtpd v0.0.0\n\nreplace github.com/siebenmann/smtpd => ./smtpd\n")
    return d


def run_go(args, d):
    r = subprocess.run(["go"] + args, cwd=d, env=genv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(race=False):
    d = source()
    exe = os.path.join(work, "sink")
    rc, out = run_go(["build"] + (["-race"] if race else []) + ["-o", exe, "."], d)
    if rc != 0:
        print(out)
        sys.exit("cannot build")
    return exe


def put(name, text):
    p = os.path.join(work, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as fp:
        fp.write(text)
    return p


def path(name):
    return os.path.join(work, name)


def get(name):
    try:
        with open(path(name)) as fp:
            return fp.read()
    except OSError:
        return ""


def mkdir(name):
    os.makedirs(path(name), exist_ok=True)
    return path(name)


def freeport(ip="127.0.0.1"):
    s = socket.socket(socket.AF_INET6 if ":" in ip else socket.AF_INET)
    s.bind((ip, 0))
    n = s.getsockname()[1]
    s.close()
    return n


class Server:
    def __init__(self, exe, *opts, ip="127.0.0.1", listen=None, dns="", prog=()):
        self.ip = ip
        self.port = freeport(ip)
        e = dict(os.environ, DEMO_DNS=put("dns", dns))
        a = ["[%s]:%d" % (ip, self.port) if ":" in ip else "%s:%d" % (listen if listen is not None else ip, self.port)]
        self.err = open(path("stderr"), "a")
        self.p = subprocess.Popen(list(prog) + [exe] + list(opts) + a, cwd=work, env=e, stdout=self.err, stderr=self.err)
        procs.append(self.p)
        for _ in range(200):
            if self.p.poll() is not None:
                return
            try:
                s = socket.socket(socket.AF_INET6 if ":" in ip else socket.AF_INET)
                s.connect((ip, self.port))
                s.close()
                return
            except OSError:
                time.sleep(0.05)
        sys.exit("the server does not come up")

    def up(self):
        return self.p.poll() is None

    def stop(self):
        self.p.kill()
        self.p.wait()


class Client:
    def __init__(self, srv, src=None):
        self.s = socket.socket(socket.AF_INET6 if ":" in srv.ip else socket.AF_INET)
        self.s.settimeout(20)
        if src:
            self.s.bind((src, 0))
        self.s.connect((srv.ip, srv.port))
        self.f = self.s.makefile("rb")
        self.hi = self.reply()

    def reply(self):
        """(code, text); (0, '') if the connection is gone"""
        t = []
        while True:
            try:
                l = self.f.readline()
            except OSError:
                return 0, ""
            if not l:
                return 0, ""
            l = l.decode("latin1").rstrip("\r\n")
            t.append(l[4:])
            if l[3:4] != "-":
                return int(l[:3]), "\n".join(t)

    def cmd(self, s):
        try:
            self.s.sendall(s.encode("latin1") + b"\r\n")
        except OSError:
            return 0, ""
        return self.reply()

    def code(self, s):
        return self.cmd(s)[0] // 100

    def message(self, text):
        c, m = self.cmd("DATA")
        if c != 354:
            return c, m
        return self.cmd(text.replace("\n", "\r\n") + "\r\n.")

    def close(self):
        self.f.close()
        self.s.close()

    def quit(self):
        r = self.cmd("QUIT")
        self.wait()
        return r

    def wait(self):
        try:
            while self.f.readline():
                pass
        except OSError:
            pass
        self.close()


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
