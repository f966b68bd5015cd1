"""Seeded random scripts: which commands to run, on what. Purely a source of stimuli."""
import json, os, random, stat, struct, subprocess, time
import decode as D
from driver import Driver
from world import FILTERS

NAMES = ["aa", "bb.o", "cc", "d d", "eé.txt", "Zz.o", "kk.tmp", "x" * 40]
DIRS = ["d1", "d2", "sub.o", "e e"]
MTIMES = [0, 1, -1, -1500000000, 1500000000, 999999999, 10**18, 1600000000 * 10**9 + 123456789, 1600000000 * 10**9,
          1600000000 * 10**9 + 1, 4102444800 * 10**9, 1700000000 * 10**9 + 999999999]
MODES = [0o644, 0o600, 0o755, 0o777, 0o400, 0o4755, 0o2755, 0o1777, 0o444, 0o640]
SIZES = ["200 B", "1 kB", "3 kB", "100 MB"]


class Gen:
    def __init__(self, drv, rng, **opt):
        self.d, self.r, self.o = drv, rng, opt
        self.mt = 0
        self.stamp = 0
        self.big = opt.get("big", 0.03)
        self.names = NAMES
        self.cloned = 0

    # ---------------------------------------------------------------- source trees
    def content(self):
        r, x = self.r, self.r.random()
        if x < 0.12:
            return b""
        if x < 0.2:
            return r.choice([b"x", b"\xa0" if self.o.get("a0", r.random() < .3) else b"\xa1", b"\x00", b"hello\n"])
        if x < 0.28 and self.d.st.blob:
            b = r.choice(sorted(self.d.st.blob))     # bytes of something stored (a tree, perhaps)
            return self.d.st.blob[b]
        if x < 0.45:
            fs = [f for f in self.files() if os.path.getsize(f) < 5000000]
            if fs:
                with open(r.choice(fs), "rb") as fh:
                    return fh.read()
        if x < 0.45 + self.big:
            return r.randbytes(r.choice([600000, 600000, 1100000, 1100000, 1100000, 2200000, 2200000, 12000000]))
        return r.randbytes(r.choice([1, 2, 5, 40, 40, 130, 300, 300, 1500, 5000]))

    def all(self, kinds):
        out = []
        for dp, dn, fn in os.walk(self.d.p("src")):
            for f in sorted(dn + fn):
                p = os.path.join(dp, f)
                s = os.lstat(p)
                k = "f" if stat.S_ISREG(s.st_mode) else "d" if stat.S_ISDIR(s.st_mode) else "l" if stat.S_ISLNK(s.st_mode) else "s"
                if k in kinds:
                    out.append(p)
        return sorted(out)

    def files(self):
        return self.all("f")

    def newtime(self):
        r = self.r
        if r.random() < 0.4:
            return r.choice(MTIMES)
        self.stamp += 1
        return 1650000000 * 10**9 + self.stamp * r.choice([1, 1000, 10**6, 10**9])

    def set_mtime(self, p, t=None):
        os.utime(p, ns=(self.d.ATIME, self.newtime() if t is None else t), follow_symlinks=False)

    def write(self, p, data):
        with open(p, "wb") as fh:
            fh.write(data)

    def make(self, p, depth=0):
        """Something new at p."""
        r, x = self.r, self.r.random()
        if x < 0.6:
            self.write(p, self.content())
            os.chmod(p, r.choice(MODES))
        elif x < 0.8 and depth < 3:
            os.mkdir(p)
            for n in r.sample(self.names, r.choice([0, 1, 2, 3])):
                self.make(os.path.join(p, n), depth + 1)
            if r.random() < 0.3:
                os.chmod(p, r.choice([0o755, 0o700, 0o1777, 0o2755, 0o555]))
        elif x < 0.95:
            os.symlink(self.link_target(p), p)
        elif self.o.get("special", True) and x < 0.97:
            os.mkfifo(p)
            return
        else:
            self.write(p, self.content())
        if r.random() < 0.15:
            os.chown(p, r.choice([0, 1, 1000]), r.choice([0, 5, 1000]), follow_symlinks=False)
            if r.random() < 0.5 and not os.path.islink(p):
                os.chmod(p, r.choice([0o4755, 0o2755, 0o640]))
        self.set_mtime(p)

    def link_target(self, p):
        r = self.r
        fs = self.files()
        if self.o.get("goodlinks"):
            fs = [f for f in fs if not f.startswith(os.path.dirname(p) + "/../")]
            return os.path.relpath(r.choice(fs), os.path.dirname(p)) if fs else "nowhere"
        return r.choice(["nowhere", "aa", "../aa", ".", "..", "/etc/hostname", "bb.o", self.d.p("src"), "d1/../cc"])

    def remove(self, p):
        if os.path.isdir(p) and not os.path.islink(p):
            for e in os.listdir(p):
                self.remove(os.path.join(p, e))
            os.rmdir(p)
        else:
            os.unlink(p)

    def edit_once(self):
        r = self.r
        x = r.random()
        fs, ds, al = self.files(), self.all("d"), self.all("fdl")
        tops = [self.d.p("src", t) for t in self.tops]
        inner = [p for p in al if p not in tops]
        if x < 0.3 or not inner:
            p = os.path.join(r.choice(ds or tops), r.choice(self.names + DIRS))
            if os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
                self.make(p)
        elif x < 0.5 and fs:
            p = r.choice(fs)
            y = r.random()
            old = open(p, "rb").read()
            if y < 0.4:
                new = self.content()
            elif y < 0.6:
                new = bytes(reversed(old)) if len(old) < 10000 else old[:100] + b"?" + old[101:]
            elif y < 0.8:
                k = r.randrange(len(old) + 1)
                new = old[:k] + r.randbytes(3) + old[k:]
            else:
                new = old[:len(old) // 2]
            if r.random() < 0.5 and not self.o.get("newinode"):
                self.write(p, new)
            else:
                os.unlink(p)
                self.write(p, new)
            # a changed file always gets a different time, unless this is to be missed (or its size changed)
            if r.random() < self.o.get("stealth", 0.06):
                self.set_mtime(p, self.seen.get(p, 0))
            elif len(new) != len(old) and r.random() < 0.3:
                self.set_mtime(p, self.seen.get(p, 7))
            else:
                y = self.seen.get(p, 0)
                self.set_mtime(p, r.choice([y + 1, y - 1, y + 1000, y + 10**9, y - 10**9, self.newtime(), self.newtime()]))
        elif x < 0.6:
            self.remove(r.choice(inner))
        elif x < 0.7:
            p = r.choice(inner)
            self.remove(p)
            self.make(p)
        elif x < 0.76:
            p = r.choice(inner)
            q = os.path.join(os.path.dirname(p) if r.random() < .6 else r.choice(ds or tops), r.choice(self.names))
            if not os.path.lexists(q) and not (q + "/").startswith(p + "/"):
                os.rename(p, q)
        elif x < 0.82:
            self.double(r.choice([q for q in inner if os.path.isdir(q) and not os.path.islink(q)] or inner), r.choice(ds or tops))
        elif x < 0.86:
            p = r.choice(al)
            if not os.path.islink(p):
                os.chmod(p, r.choice(MODES))
        elif x < 0.9:
            os.chown(r.choice(al), r.choice([0, 1, 1000]), r.choice([0, 5]), follow_symlinks=False)
        else:
            self.set_mtime(r.choice(al))

    def double(self, p, to):
        """Another copy of p, with the same metadata."""
        r = self.r
        q = os.path.join(to, os.path.basename(p) if r.random() < .5 else r.choice(self.names + DIRS))
        if os.path.lexists(q) or (q + "/").startswith(p + "/"):
            return
        n = 0
        for dp, dn, fn in os.walk(p):
            n += len(fn) + len(dn) + sum(os.lstat(os.path.join(dp, f)).st_size // 100000 for f in fn)
        if n > 30:
            return
        if os.path.isfile(p) and not os.path.islink(p) and r.random() < .3:
            os.link(p, q)
        else:
            subprocess.run(["cp", "-a", p, q], check=True)

    def sparse(self, a):
        """Make a repository where prune has packs to rewrite: some of what they hold is forgotten, some isn't."""
        r, d = self.r, self.d
        top = d.p("src/pb")
        if os.path.islink(top) or not os.path.isdir(top):
            return
        made = [os.path.join(top, "s%d" % i) for i in range(r.randrange(4, 9))]
        for p in made:
            self.write(p, r.randbytes(r.choice([40, 900, 1500, 3000, 9000])))
            self.set_mtime(p)
        d.env_event()
        old = self.snaps(a)
        d.backup(a, self.cw(), ["src/pb"])
        for p in r.sample(made, r.randrange(1, len(made) - 1)):
            os.unlink(p)
        d.env_event()
        for s in self.snaps(a):
            if s not in old or r.random() < .3:
                d.forget(a, self.cw(), [s])
        d.backup(a, self.cw(), ["src/pb"], tags=["kept"])

    def remember(self):
        self.seen = {p: os.lstat(p).st_mtime_ns for p in self.files()}

    def edit(self, n=None):
        self.remember()
        for _ in range(n or self.r.choice([1, 1, 2, 3])):
            try:
                self.edit_once()
            except (FileNotFoundError, NotADirectoryError, FileExistsError, IsADirectoryError):
                pass
        self.mend()
        self.d.env_event()

    def mend(self):
        q = self.d.p("src/q")
        if os.path.lexists(q) and (os.path.islink(q) or not os.path.isdir(q)):
            os.unlink(q)
        for t in self.tops:
            if not os.path.lexists(self.d.p("src", t)):
                os.makedirs(self.d.p("src", t))

    def plant(self):
        """The initial source tree."""
        r = self.r
        self.tops = ["pa", "pb", "q/pc"]
        self.seen = {}
        os.makedirs(self.d.p("src/q"))
        for t in self.tops:
            p = self.d.p("src", t)
            os.mkdir(p)
            for n in r.sample(self.names + DIRS, r.choice([0, 1, 2, 3, 4])):
                self.make(os.path.join(p, n))
            self.set_mtime(p)

    # ---------------------------------------------------------------- choosing arguments
    def snaps(self, repo):
        d = self.d
        label = d.ev[-1]["post"]["r"].get(repo)
        return sorted(d.tb.t["rs"][label]["snaps"], key=lambda s: (int(d.tb.t["snaps"][s]["time"]), s)) if label else []

    def name(self, repo, bad=0.04):
        """A way to name a snapshot (or not)."""
        r, ss = self.r, self.snaps(repo)
        x = r.random()
        if x < bad or not ss:
            return r.choice(["LAST~%d" % len(ss), "LAST~99999999999999999999", "abc", "zzzz", "HEAD~%d" % (len(ss) + 3),
                             "0" * 45, "LAST~x", "last", "LAST~~", "LAST~-1", "v" * 45] + ([ss[0][:3], ss[-1] + "0"] if ss else []))
        if x < 0.35:
            return r.choice(ss)
        if x < 0.6:
            n = r.randrange(len(ss))
            return r.choice(["LAST", "HEAD"]) + ("" if n == 0 and r.random() < 0.7 else "~" if n == 1 and r.random() < 0.5 else "~%d" % n)
        s = r.choice(ss)
        twins = [x for x in ss if sum(y[:4] == x[:4] for y in ss) > 1]
        if twins and r.random() < .5:
            s = r.choice(twins)
        return s[:r.choice([4, 4, 5, 6, 10, 44])]

    def pats(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            k = r.choice(["sub", "end", "end", "beg", "all"])
            if k in ("beg", "all"):
                al = self.all("fdl")
                lit = self.d.norm(r.choice(al)) if al else "/W/src/none"
            else:
                lit = r.choice(["bb.o", "sub.o", "/aa", ".o", "d d", "Zz", ".tmp", "/d1", "eé", "xxxx", "d2/", "pc"])
            out.append({"kind": k, "lit": lit})
        return out

    def relpats(self, repo, snap_trees=True):
        r = self.r
        d = self.d
        out = []
        paths = []
        for s in self.snaps(repo):
            t = d.tb.t["snaps"][s].get("tree", "?")
            paths += list(d.tb.t["trees"][t])
        paths = sorted(set(paths))
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(["sub", "end", "end", "beg", "all", "all"])
            if k in ("beg", "all") and paths:
                tails = {}
                for q in paths:
                    tails.setdefault(tuple(q.split("/")[-2:]), []).append(q)
                twins = sorted(q for t in tails.values() if len(t) > 1 for q in t)
                lit = r.choice(twins if twins and r.random() < .6 else paths)
            else:
                lit = r.choice(["bb.o", "sub.o", "/aa", ".o", "d d", "Zz", ".tmp", "/d1", "eé", "xxxx", "pa", "pc"])
            out.append({"kind": k, "lit": lit})
        return out

    ERRNO = {"mut": ["28", "5", "13", "30", "122"], "read": ["5", "13", "24", "12"]}

    def fault(self):
        """One file-system operation (or all of its kind from some point on) fails."""
        r = self.r
        n = max(1, int(2 ** (r.random() * 6)))
        how = r.choice(["-f", "-f", "-F"])
        if r.random() < 0.6:
            return [how, "%d:%s" % (n, r.choice(self.ERRNO["mut"]))]
        e = r.choice(self.ERRNO["read"])
        x = r.random()
        if x < .4:
            return ["-R", "-m", "read,list", how, "%d:%s" % (max(1, n // 2), e)]
        if x < .6:
            return ["-R", "-D", "-m", "rdata", how, "%d:%s" % (n * 2, r.choice(["5", "5", "116"]))]
        if x < .8:
            return ["-R", "-D", "-S", "/packs/", "-m", "read,rdata", how, "%d:%s" % (r.randrange(1, 30), "5")]
        return ["-R", "-S", "/packs/", "-m", "read", how, "%d:%s" % (r.randrange(1, 8), e)]

    def kill(self, p):
        r = self.r
        if r.random() >= p:
            return None
        n = int(2 ** (r.random() * 6.3)) + (0 if r.random() < 0.7 else r.randrange(40))
        return (r.choice("kkkKT"), max(1, n))

    def setup(self, repos):
        """Kinds of repositories and configuration files, for profiles about them."""
        r, out = self.r, []
        if not self.o.get("conf"):
            return repos
        if self.o.get("b2"):
            self.d.page = r.choice([1, 2, 3, 5, 100])
            self.d.timeout = 20
            for i, (name, size) in enumerate(repos):
                o = {"b2": r.choice([1, 1, 2, 4])} if i == 0 or r.random() < .5 else {}
                if r.random() < .3:
                    o["filter"] = r.choice(["gzip", "swap", "pad"])
                out.append((name, size, o))
            self.reconf()
            return out
        for name, size in repos:
            x = r.random()
            out.append((name, size, {} if x < .2 else {"cache": True} if x < .45 else
                        {"cache": r.random() < .3, "filter": r.choice(["cat", "gzip", "gzip", "swap", "pad"])}))
        self.reconf()
        return out

    def reconf(self):
        r = self.r
        size = r.choice([1, 100, 1000, 3000, 10000, 100000, 2 ** 30])
        some = [{"skips": self.pats() if r.random() < .5 else [], "deref": r.random() < .2, "out": r.choice(["", "", "/W/out/def", "/W/out/other"])} for _ in "gl"]
        some[1]["deref"] = False
        x = r.random()
        self.d.configure(size, *([] if x < .35 else some[:1] if x < .65 else some))

    def do_reconf(self):
        self.reconf()
        self.d.env_event()

    def ffail(self):
        r = self.r
        return (r.choice(["filter", "unfilter"]), r.choice(["early", "partial", "late", "killed"]), r.choice([1, 1, 1, 2, 2, 3, 4, 6]))

    def paths(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return ["src/pa"]
        if x < 0.6:
            return ["src/pa", "src/pb"]
        if x < 0.7:
            return ["src/q/pc", "src/pb"]
        if x < 0.75:
            return ["src/q"]
        if x < 0.97:
            al = self.all("fd")
            return ["src/pb"] + ([os.path.relpath(r.choice(al), self.d.root)] if r.random() < 0.5 and al else [])
        return r.choice([["src/gone"], ["src/pa", "src/gone"], ["src/pb", "src/pb/../pb"], ["src/pa", "src/q/pa"]])

    def cw(self):
        return self.r.choice(sorted(self.d.ev[-1]["post"]["cw"]))

    def repo(self):
        return self.r.choice(sorted(self.d.ev[-1]["post"]["r"]))

    # ---------------------------------------------------------------- commands
    def do_backup(self, kill=None):
        r = self.r
        if self.o.get("deref") and r.random() < 0.5:
            deref = True
        else:
            deref = r.choice([None, None, None, False])
        self.d.backup(self.repo(), self.cw(), self.paths(), pats=self.pats() if r.random() < self.o.get("pats", 0.3) else [],
                      deref=deref, author=r.choice(["", "", "me", "you there"]), tags=r.sample(["t1", "t2", "t3"], r.choice([0, 0, 0, 1, 2])),
                      repeat=r.random() < 0.12, empty=r.random() < 0.3, dry=kill is None and r.random() < self.o.get("dry", 0.08), kill=kill)

    def do_copy(self, kill=None):
        r = self.r
        a = self.repo()
        others = [x for x in sorted(self.d.ev[-1]["post"]["r"]) if x != a]
        if not others:
            return self.do_backup(kill)
        al = r.random() < 0.4
        n = len(self.snaps(a))
        if not n:
            return self.do_backup(kill)
        self.d.copy(a, r.choice(others), self.cw(), [] if al else [self.name(a) for _ in range(r.choice([1, 1, 2, 3]))], all=al,
                    pats=self.relpats(a) if r.random() < 0.35 else [], dry=kill is None and r.random() < self.o.get("dry", 0.08), kill=kill)

    def do_filter(self, kill=None):
        r = self.r
        a = self.repo()
        if not self.snaps(a):
            return self.do_backup(kill)
        self.d.filter(a, self.cw(), self.name(a), self.relpats(a), keep=r.random() < 0.5, author=r.choice(["", "me"]),
                      tags=r.sample(["t1", "t2"], r.choice([0, 1, 2])), dry=kill is None and r.random() < self.o.get("dry", 0.08), kill=kill)

    def do_forget(self, kill=None):
        r = self.r
        a = self.repo()
        if r.random() < 0.2:
            args = ["DUPLICATES"]
        else:
            args = [self.name(a) for _ in range(r.choice([1, 1, 1, 2]))]
        self.d.forget(a, self.cw(), args, dry=kill is None and r.random() < self.o.get("dry", 0.08), kill=kill)

    def do_prune(self, kill=None):
        self.d.prune(self.repo(), self.cw(), dry=kill is None and self.r.random() < self.o.get("dry", 0.08) * 1.5, kill=kill)

    def do_rebuild(self, kill=None):
        self.d.rebuild(self.repo(), self.cw(), dry=kill is None and self.r.random() < self.o.get("dry", 0.08) * 1.5, kill=kill)

    def do_restore(self, fresh=None):
        r = self.r
        a = self.repo()
        s = self.name(a)
        if fresh or r.random() < 0.4:
            out = "n%d" % len(self.d.ev)
            os.mkdir(self.d.p("out", out))
            self.d.env_event()
            return self.d.restore(a, self.cw(), s, out, times=fresh or r.random() < 0.7, perms=fresh or r.random() < 0.7,
                                  dry=not fresh and r.random() < 0.2)
        outs = sorted(os.listdir(self.d.p("out")))
        if outs and r.random() < 0.6:
            out = r.choice(outs)
            if r.random() < 0.6:
                self.scribble(self.d.p("out", out))
                self.d.env_event()
        elif r.random() < 0.5:
            out = ""
            c = self.d.conf["l"]["out"] or self.d.conf["g"]["out"]
            if c and r.random() < .8 and not os.path.lexists(self.d.real(c)):
                os.mkdir(self.d.real(c))
                self.d.env_event()
        else:
            out = r.choice(["gone", "n%d" % len(self.d.ev)])
            if out != "gone":
                self.clone(self.d.p("out", out))
                self.d.env_event()
        if os.path.lexists(self.d.p("out", out)) and not os.path.isdir(self.d.p("out", out)):
            return
        delete, times, perms = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
        if r.random() < 0.3:
            self.d.restore(a, self.cw(), s, out, delete, times, perms, dry=True)
        self.d.restore(a, self.cw(), s, out, delete, times, perms)

    def clone(self, to):
        """An output directory that looks much like a source directory, edited."""
        import shutil
        src = self.d.p("src", self.r.choice(self.tops + ["."]))
        shutil.copytree(src, to, symlinks=True, ignore=lambda d, ns: [n for n in ns if stat.S_ISFIFO(os.lstat(os.path.join(d, n)).st_mode)])
        self.scribble(to)

    def scribble(self, top):
        r = self.r
        for _ in range(r.choice([1, 2, 3])):
            al = []
            for dp, dn, fn in os.walk(top):
                al += [os.path.join(dp, f) for f in sorted(dn + fn)]
            al.sort()
            x = r.random()
            try:
                if x < 0.3 or not al:
                    ds = [top] + [p for p in al if os.path.isdir(p) and not os.path.islink(p)]
                    p = os.path.join(r.choice(ds), r.choice(self.names + DIRS))
                    if not os.path.lexists(p):
                        self.o, o = dict(self.o, special=False), self.o
                        try:
                            self.make(p)
                        finally:
                            self.o = o
                elif x < 0.45:
                    self.remove(r.choice(al))
                elif x < 0.7:
                    p = r.choice(al)
                    self.remove(p)
                    if r.random() < 0.5:
                        os.symlink(r.choice([self.d.p("out"), self.d.p("src"), "nowhere", self.d.p("misc-file")]), p)
                    else:
                        self.o, o = dict(self.o, special=False), self.o
                        try:
                            self.make(p)
                        finally:
                            self.o = o
                elif x < 0.85:
                    p = r.choice(al)
                    if not os.path.islink(p):
                        os.chmod(p, r.choice(MODES))
                else:
                    self.set_mtime(r.choice(al))
            except (FileNotFoundError, NotADirectoryError, FileExistsError, IsADirectoryError):
                pass

    def do_ls(self):
        a = self.repo()
        self.d.ls(a, self.cw(), self.name(a))

    def do_dump(self):
        r, d = self.r, self.d
        a = self.repo()
        s = self.name(a)
        paths = []
        for x in self.snaps(a):
            paths += sorted(d.tb.t["trees"][d.tb.t["snaps"][x].get("tree", "?")])
        p = r.choice(paths) if paths and r.random() < 0.9 else "pa/none"
        if r.random() < 0.1:
            p = r.choice([p + "/x", p[:-1], p.upper(), "zz/" + p])
            if p.endswith("/") or not p:
                p = "none"
        d.dump(a, self.cw(), s, p, out=r.choice(["", "", "dumped"]))

    def do_cat(self):
        r, d = self.r, self.d
        a = self.repo()
        R = d.tb.t["rs"][d.ev[-1]["post"]["r"][a]]
        x = r.random()
        if x < 0.3:
            return d.catsnap(a, self.cw(), self.name(a))
        if x < 0.55 and R["packs"]:
            return d.cat(a, self.cw(), "pack", d.tb.ident(r.choice(R["packs"])))
        if x < 0.75 and R["idx"]:
            return d.cat(a, self.cw(), "index", d.tb.ident(r.choice(R["idx"])))
        if d.st.blob:
            return d.cat(a, self.cw(), "blob", r.choice(sorted(d.st.blob)))

    ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Kiritimati", "America/St_Johns", "Pacific/Pago_Pago"]

    def do_forge(self):
        """Snapshots that other machines, other versions or other clocks left in the repository."""
        r, d = self.r, self.d
        a = self.repo()
        ss = self.snaps(a)
        if not ss:
            return self.do_backup()
        top = d.p("rp", a, "snapshots")
        do, undo = FILTERS[d.filters.get(a, "cat")][2:]
        for _ in range(r.choice([1, 1, 2, 3])):
            with open(os.path.join(top, r.choice(ss) + ".snapshot"), "rb") as fh:
                data = undo(fh.read())
            o = D.decode_snapshot(data)
            now, t = time.time_ns(), o["time"]
            t = r.choice([t, t, t, t + 1, t - 1, t + 10 ** 9, t - 3600 * 10 ** 9, t + 7200 * 10 ** 9, now + 10 ** 14, now - 86400 * 10 ** 9,
                          0, -1, -14182940 * 10 ** 9, 10 ** 18, 951782400 * 10 ** 9 - 1, 1572156000 * 10 ** 9 + r.randrange(-10 ** 13, 10 ** 13)])
            n = {"time": t, "tz": r.choice(self.ZONES + [o["tz"], "+05:30", "-08:00", "+13:45"]),
                 "author": r.choice([o["author"], "me", "someone else", "ü"]), "tags": sorted(r.sample(["t1", "t2", "t3", "far"], r.choice([0, 1, 2])))}
            n["paths"] = o["paths"]
            n["tree"] = D.snapshot_parts(data)["tree"]
            version = b"2"
            if r.random() < .2:
                version, when, z = b"1", D.local(t, n["tz"]), n.pop("tz")
                off = when.strftime("%z")
                n = {**n, "time": when.strftime("%Y-%m-%dT%H:%M:%S") + ".%09d" % (t % 10 ** 9) + off[:3] + ":" + off[3:] + r.choice(["", "[%s]" % z])}
            elif not n["tags"]:
                del n["tags"]
            made = {}
            twins = r.random() < .35
            for i in range(6000 if twins else 1):
                raw = D.to_cbor(n)
                i4 = D.ident(raw)[:4]
                if i4 in made and twins:
                    made = {i4: made[i4], "": raw}
                    break
                made[i4] = raw
                if twins:
                    n["author"] = "nobody %d" % i
            for raw in list(made.values())[-2:]:
                with open(os.path.join(top, D.ident(raw) + ".snapshot"), "wb") as fh:
                    fh.write(do(b"MKBAKSNP" + version + raw))
        d.env_event()

    def do_diff(self):
        r = self.r
        a = self.repo()
        self.d.diff(a, self.cw(), self.name(a), self.name(a) if r.random() < 0.7 else None, meta=r.random() < 0.5)

    def do_snapshots(self):
        r = self.r
        a = self.repo()
        self.d.snapshots(a, self.cw(), [self.name(a) for _ in range(r.choice([0, 0, 0, 1, 2, 3]))], reverse=r.random() < 0.3,
                         sizes=r.random() < 0.5, stat=r.random() < 0.3, fsizes=r.random() < 0.4, meta=r.random() < 0.5)

    def do_usage(self):
        self.d.usage(self.repo(), self.cw())

    def do_check(self):
        self.d.check(self.repo(), self.cw(), read=self.r.random() < 0.6)

    def do_edit(self):
        self.edit()

    # ---------------------------------------------------------------- at the same time
    def policy(self):
        """How to interleave commands."""
        r = self.r
        p = r.choice([.02, .05, .1, .3, .6])
        keen = r.choice([0, 0, .3, .8])
        last = [None]

        def pick(stopped):
            c = sorted(stopped)
            if last[0] in stopped:
                ev = stopped[last[0]][0]
                hot = any(w in ev for w in ("list", "indexes/", "snapshots/")) or ev.startswith("unlink")
                if r.random() >= (max(p, keen) if hot else p):
                    return last[0]
                c = [x for x in c if x != last[0]] or c
            last[0] = r.choice(c)
            return last[0]
        return pick

    def conc_parts(self, n, ops=None):
        """n commands that may run at the same time on one repository, each in its own directory."""
        r, d = self.r, self.d
        a = self.repo()
        others = [x for x in sorted(d.ev[-1]["post"]["r"]) if x != a]
        make = []
        pruned = False
        cws = r.sample(sorted(d.ev[-1]["post"]["cw"]), n)
        for i in range(n):
            op = ops[i] if ops else r.choice(["backup", "backup", "copy", "filter", "rebuild", "prune"])
            if op == "prune" and pruned or op == "copy" and not any(self.snaps(x) for x in others) or op == "filter" and not self.snaps(a):
                op = "backup"
            pruned |= op == "prune"
            cw = cws[i]
            if op == "backup":
                kw = dict(paths=r.choice([["src/pa"], ["src/pa", "src/pb"], ["src/q/pc"], ["src/q", "src/pb"]]),
                          pats=self.pats() if r.random() < .2 else [], author=r.choice(["", "me"]), tags=r.sample(["t1", "t2"], r.choice([0, 0, 1])),
                          repeat=r.random() < .2, empty=r.random() < .3)
                make.append(lambda cw=cw, kw=kw: d.backup(a, cw, **kw))
            elif op == "copy":
                b = r.choice([x for x in others if self.snaps(x)])
                al = r.random() < .5
                ss = [r.choice(self.snaps(b)) for _ in range(r.choice([1, 2]))]
                pats = self.relpats(b) if r.random() < .2 else []
                make.append(lambda cw=cw, b=b, al=al, ss=ss, pats=pats: d.copy(b, a, cw, [] if al else ss, all=al, pats=pats))
            elif op == "filter":
                s, pats, keep = r.choice(self.snaps(a)), self.relpats(a), r.random() < .5
                make.append(lambda cw=cw, s=s, pats=pats, keep=keep: d.filter(a, cw, s, pats, keep=keep))
            elif op == "prune":
                make.append(lambda cw=cw: d.prune(a, cw))
            else:
                make.append(lambda cw=cw: d.rebuild(a, cw))
        return make

    def do_conc(self):
        r = self.r
        if r.random() < .7:
            self.edit()
        n = min(len(self.d.ev[-1]["post"]["cw"]), 3 if r.random() < .25 else 2)
        self.d.conc(self.conc_parts(n), self.policy())

    def do_loseindex(self):
        """Indexes lost or out of date: what rebuild-index is for."""
        r, d = self.r, self.d
        a = self.repo()
        top = d.p("rp", a, "indexes")
        es = sorted(os.listdir(top))
        saved = d.p("rp", a)
        if not es:
            return
        x = r.random()
        if x < 0.6:
            for e in r.sample(es, r.randrange(1, len(es) + 1)):
                os.unlink(os.path.join(top, e))
        elif x < 0.8:
            with open(os.path.join(top, r.choice(es)), "r+b") as fh:
                fh.truncate(r.randrange(0, 20))
        d.env_event("damage", repo=a, what="index")
        if r.random() < 0.3:
            self.do_edit()
        d.rebuild(a, self.cw(), kill=self.kill(0.2) if self.o.get("kill") else None)
        if r.random() < 0.7:
            d.rebuild(a, self.cw())

    def do_damage(self):
        """Damage one object, look at everything, put it back."""
        r, d = self.r, self.d
        a = self.repo()
        objs = []
        for k in ("packs", "packs", "indexes", "snapshots"):
            objs += [d.p("rp", a, k, f) for f in sorted(os.listdir(d.p("rp", a, k)))]
        if not objs:
            return self.do_backup()
        p = r.choice(objs)
        with open(p, "rb") as fh:
            old = fh.read()
        st = os.lstat(p)
        how = r.choice(["flip", "flip", "flip", "cut", "gone", "swap", "grow", "forge", "forge", "zero"])
        new = old
        if how == "flip":
            b = bytearray(old)
            b[r.randrange(len(b))] ^= r.choice([1, 2, 0x80, 0xff, 0x10])
            new = bytes(b)
        elif how == "cut":
            new = old[:r.choice([0, 1, 8, 9, 10, len(old) // 2, len(old) - 1, len(old) - 4])]
        elif how == "gone":
            new = None
        elif how == "swap":
            q = r.choice([x for x in objs if os.path.dirname(x) == os.path.dirname(p)])
            with open(q, "rb") as fh:
                new = fh.read()
        elif how == "grow" and p.endswith(".pack"):
            new = old + r.randbytes(r.choice([1, 4, 100]))
        elif how == "zero":
            k = r.randrange(len(old))
            n = r.choice([1, 4, 64])
            new = old[:k] + b"\0" * len(old[k:k + n]) + old[k + n:]
        else:
            new = self.forge(p, old) or old
        if new == old:
            return
        if new is None:
            os.unlink(p)
        else:
            self.write(p, new)
        d.env_event("damage", repo=a, what="object", how=how, name=d.norm(p))
        cw = self.cw()
        d.check(a, cw, read=True)
        if r.random() < .3:
            d.check(a, cw)
        for s in r.sample(self.allsnaps(a), min(3, len(self.allsnaps(a)))):
            x = r.random()
            if x < .6:
                out = "h%d" % len(d.ev)
                os.mkdir(d.p("out", out))
                d.env_event()
                d.restore(a, cw, s, out, times=True, perms=True)
            t = sorted(q for q, n in d.tb.t["trees"][d.tb.t["snaps"][s].get("tree", "?")].items() if n["k"] == "f")
            for q in r.sample(t, min(len(t), 2)):
                d.dump(a, cw, s, q, out=r.choice(["", "", "dumped"]))
            y = r.random()
            if y < .2:
                d.ls(a, cw, s)
            elif y < .4:
                d.catsnap(a, cw, s)
        R = d.tb.t["rs"][d.ev[-1]["post"]["r"][a]]
        kind, lab = {"packs": ("pack", "p"), "indexes": ("index", "i"), "snapshots": ("", "")}[os.path.basename(os.path.dirname(p))]
        ident = os.path.basename(p).split(".")[0]
        if kind and r.random() < .6:
            d.cat(a, cw, kind, ident)
            if kind == "pack":
                man = d.tb.t["packs"].get(d.tb.name("p", ident))
                for m in d.tb.t["mans"][man["man"]][:4] if man else []:
                    d.cat(a, cw, "blob", d.tb.ident(m["b"]))
        self.write(p, old)
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        if os.path.isdir(d.p("home/.cache/backpak")):       # it may have got what was damaged
            subprocess.run(["rm", "-rf", d.p("home/.cache/backpak")], check=True)
        d.env_event("heal", repo=a)
        d.check(a, cw, read=True)

    def forge(self, p, old):
        """The same object with other contents, but still well-formed outside."""
        r = self.r
        f = self.d.filters.get(os.path.relpath(p, self.d.p("rp")).split("/")[0])
        if f:
            x = self.forge1(p, FILTERS[f][3](old))
            return x and FILTERS[f][2](x)
        return self.forge1(p, old)

    def forge1(self, p, old):
        r = self.r

        def bend(x):
            if not x:
                return x
            b = bytearray(x)
            b[r.randrange(len(b))] ^= r.choice([1, 0x20, 0x80])
            return bytes(b)
        try:
            if p.endswith(".pack"):
                ml = int.from_bytes(old[-4:], "big")
                body, man = old[9:-4 - ml], old[-4 - ml:-4]
                if r.random() < .75:
                    return old[:9] + D.zstd(bend(D.unzstd(body)[0])) + man + old[-4:]
                m2 = D.zstd(bend(D.unzstd(man)[0]))
                return old[:9] + body + m2 + len(m2).to_bytes(4, "big")
            if p.endswith(".index"):
                return old[:9] + D.zstd(bend(D.unzstd(old[9:])[0]))
            return old[:9] + bend(old[9:])
        except D.Bad:
            return None

    def allsnaps(self, a):
        """The names of the snapshots there were before the damage."""
        d = self.d
        for e in reversed(d.ev):
            if e["op"] == "damage":
                continue
            i = d.ev.index(e)
            if i + 1 < len(d.ev) and d.ev[i + 1]["op"] == "damage":
                return sorted(d.tb.t["rs"][e["post"]["r"][a]]["snaps"])
        return self.snaps(a)

    # ---------------------------------------------------------------- scripts
    def machine(self):
        """Some number of processor cores, and a way to hold threads up."""
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4, 5, 8, 16, 64])
        f = os.path.join(os.path.dirname(self.d.p()), "cpus.%d" % n)
        if not os.path.exists(f):
            with open("%s.%d" % (f, os.getpid()), "w") as fh:
                for i in range(n):
                    fh.write("processor\t: %d\nphysical id\t: %d\ncore id\t\t: %d\ncpu cores\t: %d\n\n" % (i, i // 8, i % 8, min(n, 8)))
            os.replace("%s.%d" % (f, os.getpid()), f)
        return ["-C", f] + (["-j", str(r.randrange(1, 10**6))] if r.random() < .6 else [])

    def request(self, what, op):
        """How the storage service is to misbehave."""
        r = self.r
        m = self.d.requests.get(op, 12)
        n = r.randint(1 if r.random() < .1 else 4, max(4, m + 1))
        if what == "skill":
            return {"kill": (n, r.choice(["before", "after"]))}
        plan = {n: r.choice(["503", "503", "500", "429", "reset", "500after", "resetafter", "cut", "401", "403"])}
        if r.random() < .3:
            plan[n + 1] = plan[n]
        return {"plan": plan, "slow": r.choice([0, 0, 0, .01])}

    def run(self, steps, weights):
        ops = sorted(weights)
        for _ in range(steps):
            op = self.r.choices(ops, [weights[o] for o in ops])[0]
            if self.r.random() < self.o.get("zones", .15):
                self.d.env["TZ"] = self.r.choice(self.ZONES)
            if self.o.get("cores"):
                self.d.extra = self.machine()
            if op.startswith("fault_"):
                self.d.next_faults = self.fault()
                try:
                    getattr(self, "do_" + op[6:])()
                finally:
                    self.d.next_faults = None
            elif op.startswith("ffail_"):
                self.d.next_ffail = self.ffail()
                try:
                    getattr(self, "do_" + op[6:])()
                finally:
                    self.d.next_ffail = None
            elif op.startswith("srv_") or op.startswith("skill_"):
                what, op = op.split("_", 1)
                self.d.next_srv = self.request(what, op)
                try:
                    getattr(self, "do_" + op)()
                finally:
                    self.d.next_srv = {}
            elif op.startswith("kill_"):
                getattr(self, "do_" + op[5:])(kill=self.kill(1.0))
            else:
                getattr(self, "do_" + op)()

    def finale(self):
        """Look at everything once more through the binary."""
        d, r = self.d, self.r
        for a in sorted(d.ev[-1]["post"]["r"]):
            d.check(a, self.cw(), read=True)
            ss = self.snaps(a)
            for s in r.sample(ss, min(2, len(ss))):
                out = "z%d" % len(d.ev)
                os.mkdir(d.p("out", out))
                d.env_event()
                d.restore(a, self.cw(), s, out, times=True, perms=True)
