"""A small npm registry and helpers to run the real `oro`, for demonstrations."""
import base64, hashlib, http.server, io, json, os, shutil, subprocess, sys, tarfile, tempfile, threading, urllib.parse, gzip

ORO = os.path.abspath("target/debug/oro")


def tgz(files, entries=None):
    """files: {path: text or (text, mode)}"""
    b = io.BytesIO()
    t = tarfile.open(fileobj=b, mode="w")
    for p, d in files.items():
        mode = 0o644
        if isinstance(d, tuple):
            d, mode = d
        if isinstance(d, str):
            d = d.encode()
        i = tarfile.TarInfo("package/" + p)
        i.size, i.mode = len(d), mode
        t.addfile(i, io.BytesIO(d))
    for i, d in entries or []:
        t.addfile(i, io.BytesIO(d) if d is not None else None)
    t.close()
    return gzip.compress(b.getvalue(), mtime=0)


class Registry:
    def __init__(self, host="127.0.0.1"):
        self.docs, self.tars, self.log, self.hooks = {}, {}, [], []
        reg = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_GET(self):
                self.handle_it()

            def do_PUT(self):
                self.handle_it()

            def do_POST(self):
                self.handle_it()

            def handle_it(self):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n) if n else b""
                path = urllib.parse.unquote(self.path)
                reg.log.append((self.command, path, dict(self.headers), body))
                for h in reg.hooks:
                    r = h(self.command, path, dict(self.headers), body)
                    if r is not None:
                        return self.reply(*r)
                if path.lstrip("/") in reg.docs:
                    return self.reply(200, json.dumps(reg.doc(path.lstrip("/"))).encode())
                if path in reg.tars:
                    return self.reply(200, reg.tars[path])
                self.reply(404, b"{}")

            def reply(self, code, body, headers=None):
                self.send_response(code)
                for k, v in (headers or {}).items():
                    self.send_header(k, v)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

        self.srv = http.server.ThreadingHTTPServer((host, 0), H)
        self.srv.daemon_threads = True
        self.url = "http://%s:%d/" % (host, self.srv.server_address[1])
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def doc(self, name):
        return self.docs[name]

    def publish(self, name, version, files=None, tag=True, integrity=True, entries=None, tarball=None, **manifest):
        m = dict(name=name, version=version, **manifest)
        fs = {"package.json": json.dumps(m), "index.js": "module.exports = %r\n" % (name + "@" + version)}
        fs.update(files or {})
        data = tarball if tarball is not None else tgz(fs, entries)
        path = "/%s/-/%s-%s.tgz" % (name, name.split("/")[-1], version)
        self.tars[path] = data
        d = self.docs.setdefault(name, {"name": name, "versions": {}, "dist-tags": {}, "time": {}})
        dist = {"tarball": self.url.rstrip("/") + path}
        if integrity:
            dist["integrity"] = "sha512-" + base64.b64encode(hashlib.sha512(data).digest()).decode()
            dist["shasum"] = hashlib.sha1(data).hexdigest()
        d["versions"][version] = dict(m, dist=dist)
        if tag:
            d["dist-tags"]["latest"] = version
        return data

    def paths(self, command="GET"):
        return [x[1] for x in self.log if x[0] == command]


class Project:
    def __init__(self, reg, manifest=None):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="demo-"))
        self.root = os.path.join(self.base, "proj")
        self.cache = os.path.join(self.base, "cache")
        self.home = os.path.join(self.base, "home")
        for d in (self.root, self.cache, self.home):
            os.mkdir(d)
        self.reg = reg
        if manifest is not None:
            self.manifest(**manifest)

    def manifest(self, **m):
        m = dict({"name": "proj", "version": "1.0.0"}, **m)
        self.write("package.json", json.dumps(m, indent=2))

    def path(self, *p):
        return os.path.join(self.root, *p)

    def write(self, p, s):
        os.makedirs(os.path.dirname(self.path(p)), exist_ok=True)
        with open(self.path(p), "w") as f:
            f.write(s)

    def read(self, p):
        with open(self.path(p)) as f:
            return f.read()

    def json(self, p):
        return json.loads(self.read(p))

    def exists(self, p):
        return os.path.exists(self.path(p))

    def oro(self, *args, env=None, timeout=100, registry=True, cache=True, stdin=None):
        e = {"PATH": os.environ["PATH"], "HOME": self.home, "CI": "true", "XDG_CONFIG_HOME": os.path.join(self.home, "cfg"),
             "XDG_CACHE_HOME": os.path.join(self.home, "cch"), "XDG_DATA_HOME": os.path.join(self.home, "data")}
        e.update(env or {})
        a = [ORO] + list(args) + ["--root", self.root]
        if registry:
            a += ["--registry", self.reg.url]
        if cache:
            a += ["--cache", self.cache]
        try:
            p = subprocess.run(a, cwd=self.root, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            fail("timed out: " + " ".join(args))
        self.err = p.stderr.decode(errors="replace")
        self.out = p.stdout.decode(errors="replace")
        return p.returncode

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def fail(why):
    print("DEMO: property broken:", why)
    sys.stdout.flush()
    os._exit(1)


def check(cond, why):
    if not cond:
        fail(why)


def setup(cond, why):
    """something the demonstration itself needs"""
    if not cond:
        print("DEMO: setup failed:", why)
        sys.stdout.flush()
        os._exit(3)
