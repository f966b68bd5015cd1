"""A scratch world (home, working directories, repositories, source and output areas) in which the real
binary runs, and the projection of what is on disk onto the specification's state.

Nothing here judges: everything recorded goes into a trace that TLC checks against spec/Client.tla.
"""
import hashlib, json, os, re, shutil, signal, stat, subprocess, time, zlib
import decode as D

# Filter programs of repositories: shell commands both ways, and the same in Python.
SWAP = bytes(range(128, 256)) + bytes(range(128))


def gunzip(b):
    out = b""
    while b:
        z = zlib.decompressobj(31)
        try:
            out += z.decompress(b) + z.flush()
        except zlib.error as e:
            raise D.Bad("gzip: %s" % e)
        if not z.eof:
            raise D.Bad("gzip: cut short")
        b = z.unused_data
    return out


def gzip(b):
    z = zlib.compressobj(1, zlib.DEFLATED, 31)
    return z.compress(b) + z.flush()


FILTERS = {
    "cat": ("cat", "cat", lambda b: b, lambda b: b),
    "gzip": ("gzip -nc1", "gzip -dc", gzip, gunzip),
    "swap": ("LC_ALL=C tr '\\000-\\177\\200-\\377' '\\200-\\377\\000-\\177'", "LC_ALL=C tr '\\000-\\177\\200-\\377' '\\200-\\377\\000-\\177'",
             lambda b: b.translate(SWAP), lambda b: b.translate(SWAP)),
    "pad": ("printf 0123456789; cat", "tail -c +11", lambda b: b"0123456789" + b, lambda b: b[10:]),
}

KIND = {stat.S_IFREG: "f", stat.S_IFDIR: "d", stat.S_IFLNK: "l"}


class Store:
    """Content-addressed things seen so far (verified bytes only)."""

    def __init__(self):
        self.blob = {}       # id -> bytes
        self.filecache = {}  # (path, ino, size, mtime, ctime) -> sha224 of contents
        self.objcache = {}   # same -> decoded object
        self.flat = {}       # tree id -> flat dict or None


class World:
    def __init__(self, root, binpath, bptrace=None):
        self.root = os.path.realpath(root)
        self.bin, self.bptrace = binpath, bptrace
        for d in ("home", "tmp", "cw", "rp", "src", "out"):
            os.makedirs(os.path.join(self.root, d))
        self.st = Store()
        self.timeout = 30
        self.env = {"HOME": self.p("home"), "TMPDIR": self.p("tmp"), "PATH": "/usr/local/bin:/usr/bin:/bin",
                    "XDG_CACHE_HOME": self.p("home/.cache"), "XDG_CONFIG_HOME": self.p("home/.config"),
                    "RUST_BACKTRACE": "0", "RUST_LIB_BACKTRACE": "0", "TZ": "UTC", "LANG": "C.UTF-8"}
        self.tb = Tables(self)
        self.filters = {}       # repo -> name of its filter (see FILTERS)
        self.cloud = {}         # repos in a (stand-in) B2 bucket: how many connections they may use
        self.srv = None         # the stand-in
        self.cached = set()     # repos that go through the cache
        self.limit = 0          # configured cache size

    def p(self, *a):
        return os.path.join(self.root, *a)

    def norm(self, s):
        return s.replace(self.root, "/W")

    def real(self, s):
        return self.root + s[2:] if s == "/W" or s.startswith("/W/") else s

    # -------------------------------------------------------------- running
    def argv(self, cw, repo, args, config=""):
        return [self.bin, "-C", self.p("cw", cw), "-c", "never", "--config", config, "--repository", self.where(repo), *args]

    def where(self, repo):
        """What to call a repository on the command line."""
        return self.p("rp", repo, "config.toml") if repo in self.cloud else self.p("rp", repo)

    def run(self, argv, pre=(), timeout=None, env=None, cwd=None):
        """-> rc (124 on a hang), stdout bytes, stderr text"""
        e = dict(self.env)
        e.update(env or {})
        p = subprocess.Popen([*pre, *argv], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, cwd=cwd or self.root, start_new_session=True)
        if self.srv:
            self.srv.proc = p
        try:
            o, x = p.communicate(timeout=timeout or self.timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, x = p.communicate()
            rc = 124
        return rc, o, x.decode("utf-8", "replace")

    # -------------------------------------------------------------- reading disk
    def _sig(self, path, s):
        return (path, s.st_ino, s.st_size, s.st_mtime_ns, s.st_ctime_ns)

    def file_sha(self, path, s):
        k = self._sig(path, s)
        v = self.st.filecache.get(k)
        if v is None:
            try:
                with os.fdopen(os.open(path, os.O_RDONLY | os.O_NOATIME), "rb") as fh:
                    data = fh.read()
                v = D.ident(data)
                if len(data) < 100:
                    self.tb.small[v] = data
            except OSError:
                v = "unreadable"
            self.st.filecache[k] = v
        return v

    def node(self, path, deref=False):
        s = os.stat(path) if deref else os.lstat(path)
        k = KIND.get(stat.S_IFMT(s.st_mode), "s")
        n = {"k": k, "c": "", "z": 0, "m": s.st_mode & 0o7777, "u": s.st_uid, "g": s.st_gid,
             "t": str(s.st_mtime_ns), "a": str(s.st_atime_ns), "x": ""}
        if k == "f":
            n["c"] = self.tb.content(self.file_sha(path, s))
            n["z"] = s.st_size
        elif k == "l":
            n["x"] = self.norm(os.readlink(path))
        return n

    def walk(self, top, key=None, deref=False, out=None, depth=0):
        """Flat tree of everything at or below `top`; keys are paths with the world's root as /W."""
        out = {} if out is None else out
        key = self.norm(top) if key is None else key
        try:
            n = self.node(top, deref)
        except OSError:
            if deref and os.path.islink(top):
                out[key] = {"k": "?", "c": "", "z": 0, "m": 0, "u": 0, "g": 0, "t": "", "a": "", "x": ""}
            return out
        out[key] = n
        if n["k"] == "d" and depth < 40:
            fd = os.open(top, os.O_RDONLY | os.O_DIRECTORY | os.O_NOATIME)
            try:
                names = sorted(os.listdir(fd))
            finally:
                os.close(fd)
            for e in names:
                self.walk(os.path.join(top, e), key + "/" + e, deref, out, depth + 1)
        return out

    # -------------------------------------------------------------- repositories
    def _obj(self, path, fn, repo, plain):
        s = os.lstat(path)
        k = self._sig(path, s) + (fn.__name__,)
        if k not in self.st.objcache:
            with open(path, "rb") as fh:
                data = fh.read()
            name = os.path.basename(path).rsplit(".", 1)[0]
            c = "?"
            try:
                if repo in self.filters:
                    data = FILTERS[self.filters[repo]][3](data)
                c = self.tb.content(D.ident(data))
                self.st.objcache[k] = (fn(data, name), len(data), c)
            except D.Bad as e:
                self.st.objcache[k] = (None, len(data), c)
        o, size, c = self.st.objcache[k]
        if repo in self.cached:
            plain[os.path.basename(path)] = c
        return o, size

    def project(self, repo):
        """The state of a repository as the specification sees it."""
        base = self.p("rp", repo)
        r = {"packs": [], "idx": [], "snaps": [], "bad": [], "junk": [], "cfg": "", "raw": {}, "sizes": {"p": 0, "i": 0, "s": 0}, "plain": {}}
        if not os.path.isdir(base):
            return r
        for dp, dn, fn in os.walk(base):
            dn.sort()
            rel = os.path.relpath(dp, base)
            for f in sorted(fn):
                full, name = os.path.join(dp, f), (f if rel == "." else rel + "/" + f)
                stem, ext = os.path.splitext(f)
                try:
                    st = os.lstat(full)
                    r["raw"][name] = self.tb.content(self.file_sha(full, st))
                    if rel in ("packs", "indexes", "snapshots"):
                        r["sizes"][rel[0]] += st.st_size
                    if name == "config.toml":
                        r["cfg"] = self.file_sha(full, os.lstat(full))
                        continue
                    if (rel, ext) == ("packs", ".pack"):
                        o, size = self._obj(full, D.decode_pack, repo, r["plain"])
                        if o is None:
                            r["bad"].append(self.tb.name("p", stem))
                        else:
                            self.st.blob.update(o[1])
                            r["packs"].append(self.tb.pack(stem, o[0], size))
                    elif (rel, ext) == ("indexes", ".index"):
                        o, size = self._obj(full, D.decode_index, repo, r["plain"])
                        if o is None:
                            r["bad"].append(name)
                        else:
                            r["idx"].append(self.tb.index(stem, o, size))
                    elif (rel, ext) == ("snapshots", ".snapshot"):
                        o, size = self._obj(full, D.decode_snapshot, repo, r["plain"])
                        if o is None:
                            r["bad"].append(name)
                        else:
                            r["snaps"].append(self.tb.snap(stem, o, size))
                    else:
                        r["junk"].append(name)
                except FileNotFoundError:
                    pass
        for s in r["snaps"]:
            self.tb.resolve(s)
        return r

    def flat(self, tid):
        """Flat tree of a stored tree (relative paths), or None if some blob was never seen intact."""
        c = self.st.flat
        if c.get(tid) is not None:
            return c[tid]
        if tid == D.EMPTY_TREE:
            return {}
        b = self.st.blob.get(tid)
        if b is None:
            return None
        try:
            t = D.decode_tree(b)
        except Exception:
            return None
        out, kids, whole = {}, [], True
        for name, n in t.items():
            e = {"k": n["k"], "c": "", "z": 0, "m": n["mode"] & 0o7777, "u": n["uid"], "g": n["gid"],
                 "t": str(n["mtime"]), "a": str(n["atime"]), "x": ""}
            if KIND.get(stat.S_IFMT(n["mode"])) != n["k"] or "/" in name or name in ("", ".", ".."):
                e["k"] = "?" + n["k"]
            out[name] = e
            if n["k"] == "f":
                parts = [self.st.blob.get(x) for x in n["chunks"]]
                kids += [("c", x) for x in n["chunks"]]
                if any(x is None for x in parts):
                    whole = False
                else:
                    e["c"] = self.tb.content(n["chunks"][0] if len(parts) == 1 else D.ident(b"".join(parts)))
                e["z"] = n["size"] if n["size"] is not None else -1
            elif n["k"] == "d":
                kids.append(("t", n["tree"]))
                sub = self.flat(n["tree"])
                if sub is None:
                    whole = False
                else:
                    for q, x in sub.items():
                        out[name + "/" + q] = x
            else:
                e["x"] = self.norm(n["target"])
        self.tb.kids(tid, kids)
        if not whole:
            return None
        c[tid] = out
        return out

    # -------------------------------------------------------------- everything at once
    def cwstate(self, cw):
        """What is in a working directory: leftovers of interrupted commands."""
        out = {}
        top = self.p("cw", cw)
        idx, packs, listed = "", [], []
        for dp, dn, fn in os.walk(top):
            for f in fn + dn:
                full = os.path.join(dp, f)
                rel = os.path.relpath(full, top)
                try:
                    s = os.lstat(full)
                except FileNotFoundError:
                    continue
                out[rel] = ("dir" if stat.S_ISDIR(s.st_mode) else self.file_sha(full, s)) + " %o" % s.st_mode
                if re.fullmatch(r"[0-9a-v]{45}\.pack", rel):
                    packs.append(self.tb.name("p", rel[:-5]))
                elif rel == "backpak-wip.index":
                    idx = out[rel]
                    try:
                        with open(full, "rb") as fh:
                            listed += [self.tb.name("p", k) for k in D.decode_index(fh.read())["packs"]]
                    except D.Bad:
                        pass
        return self.tb.cw(out, {"files": sorted(out), "idx": idx, "packs": sorted(packs), "listed": sorted(listed),
                                "needs": {f: h for f, h in out.items() if f == "backpak-wip.index" or
                                          (f.endswith(".pack") and self.tb.name("p", f[:-5]) in listed)}})

    def misc(self):
        """Everything outside the areas commands may touch (home, tmp, the world's top level)."""
        out = {}
        for a in ("home", "tmp"):
            for dp, dn, fn in os.walk(self.p(a)):
                dn[:] = [d for d in dn if not (a == "home" and d == ".cache")]
                for f in fn:
                    full = os.path.join(dp, f)
                    out[os.path.relpath(full, self.root)] = self.file_sha(full, os.lstat(full))
        for f in sorted(os.listdir(self.root)):
            if f not in ("home", "tmp", "cw", "rp", "src", "out"):
                out[f] = "?" if os.path.isdir(self.p(f)) else self.file_sha(self.p(f), os.lstat(self.p(f)))
        for f in sorted(os.listdir(self.p("cw"))):
            out["cw/" + f] = "" if os.path.isdir(self.p("cw", f)) else "?"
        return out

    def observe(self):
        tb = self.tb
        return {"r": {x: tb.rs(self.project(x)) for x in sorted(os.listdir(self.p("rp")))},
                "s": tb.tree(self.walk(self.p("src"))), "o": tb.tree(self.walk(self.p("out"))),
                "cw": {x: self.cwstate(x) for x in sorted(os.listdir(self.p("cw")))},
                "misc": tb.cw(self.misc()), "cache": self.cache()}

    def cache(self):
        """What is in the cache of this world's home."""
        top, files = self.p("home/.cache/backpak"), {}
        if os.path.isdir(top):
            for f in sorted(os.listdir(top)):
                if f.endswith((".pack", ".index", ".snapshot")):
                    try:
                        s = os.lstat(os.path.join(top, f))
                        files[f] = {"c": self.tb.content(self.file_sha(os.path.join(top, f), s)), "z": s.st_size}
                    except FileNotFoundError:
                        pass
        return self.tb.cache({"files": files, "limit": min(self.limit, 2 ** 31 - 1)})


class Tables:
    """Interned values of one script; written into the trace once each."""

    def __init__(self, w):
        self.w = w
        self.t = {k: {} for k in ("trees", "mans", "packs", "idx", "snaps", "rs", "cws", "wips", "len", "tk", "caches")}
        self.t["trees"]["?"] = {}
        self.by = {}
        self.names = {}
        self.cont = {}
        self.small = {}

    def _intern(self, table, prefix, value):
        k = (table, json.dumps(value, sort_keys=True))
        if k not in self.by:
            self.by[k] = "%s%d" % (prefix, len(self.t[table]))
            self.t[table][self.by[k]] = value
        return self.by[k]

    def name(self, prefix, ident):
        k = (prefix, ident)
        if k not in self.names:
            self.names[k] = "%s%d" % (prefix, sum(1 for q in self.names if q[0] == prefix))
        return self.names[k]

    def ident(self, label):
        for (p, i), v in self.names.items():
            if v == label:
                return i

    def content(self, sha):
        if sha not in self.cont:
            self.cont[sha] = "c%d" % len(self.cont)
        return self.cont[sha]

    def blob(self, b):
        return self.name("b", b)

    def man(self, m):
        v = []
        for (y, n, i) in m:
            l = self.blob(i)
            self.t["len"][l] = n
            v.append({"y": y, "n": n, "b": l})
        return self._intern("mans", "m", v)

    def pack(self, ident, man, size):
        l = self.name("p", ident)
        self.t["packs"][l] = {"man": self.man(man), "size": size}
        return l

    def index(self, ident, o, size):
        l = self.name("i", ident)
        if l not in self.t["idx"]:
            self.t["idx"][l] = {"sup": sorted(self.name("i", x) for x in o["sup"]), "size": size,
                                "packs": {self.name("p", k): self.man(v) for k, v in o["packs"].items()}}
        return l

    def snap(self, ident, o, size):
        if ident not in self.t["snaps"]:
            self.t["snaps"][ident] = {"time": str(o["time"]), "tz": o["tz"], "author": o["author"], "tags": o["tags"],
                                      "paths": sorted(self.w.norm(x) for x in o["paths"]), "size": size,
                                      "rootid": o["tree"], "date": D.date(o["time"], o["tz"]), "ntags": len(o["tags"])}
        return ident

    def resolve(self, ident):
        s = self.t["snaps"][ident]
        if s.get("tree", "?") == "?":
            f = self.w.flat(s["rootid"])
            s["tree"] = "?" if f is None else self.tree(f)
            s["root"] = "empty" if s["rootid"] == D.EMPTY_TREE else self.blob(s["rootid"])

    def kids(self, tid, kids):
        self.t["tk"][self.blob(tid)] = {
            "c": [self.blob(x) for y, x in kids if y == "c"],
            "t": [self.blob(x) for y, x in kids if y == "t" and x != D.EMPTY_TREE]}

    def tree(self, flat):
        return self._intern("trees", "T", flat)

    def cache(self, c):
        return self._intern("caches", "C", c)

    def cw(self, d, wip=None):
        l = self._intern("cws", "w", d)
        if wip is not None:
            self.t["wips"][l] = wip
        return l

    def rs(self, r):
        for k in ("packs", "idx", "snaps", "bad", "junk"):
            r[k] = sorted(r[k])
        return self._intern("rs", "R", r)

    def mid(self, r):
        """A state a repository goes through during a command."""
        return self._intern("rs", "R", {**r, "junk": [], "cfg": "", "raw": {}, "plain": {}, "sizes": {"p": 0, "i": 0, "s": 0}})

    def dump(self):
        """The tables, with snapshot times turned into ranks."""
        t = dict(self.t)
        times = sorted({int(s["time"]) for s in t["snaps"].values()})
        for i, s in t["snaps"].items():
            s["when"] = times.index(int(s["time"]))
        for r, i in enumerate(sorted(t["snaps"])):
            t["snaps"][i]["idrank"] = r
        t["a0"] = ("b", D.EMPTY_TREE) in self.names
        t["a0b"] = [self.blob(D.EMPTY_TREE)] if t["a0"] else []
        return t
