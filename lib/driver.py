"""Runs backpak commands in a World and records each as an event of a trace for spec/ClientTrace.tla.

The driver knows how to build command lines and how to read what a command prints. It does not know what
the right outcome is: every event carries the arguments, the result and the observed world afterwards,
and the specification decides.
"""
import json, os, re, selectors, signal, socket, stat, subprocess, time
import decode as D
from b2 import Server
from world import World, FILTERS

# A filter program that fails when told to (its n-th run does, in one of some ways).
FLAKY = """C=$HOME/.cache
prog() { %(prog)s; }
if [ -e $C/fail-%(name)s ]; then
  read how n < $C/fail-%(name)s
  i=1; while ! mkdir $C/run.$i 2>/dev/null; do i=$((i+1)); done
  if [ $i = $n ]; then
    touch $C/failed
    case $how in
      early) exit 3;;
      partial) prog | head -c 30; exit 3;;
      late) prog; exit 3;;
      killed) prog | head -c 10; kill -9 $$;;
    esac
  fi
fi
prog
"""

UNITS = {"B": 0, "KB": 3, "MB": 6, "GB": 9, "TB": 12}


def size_range(txt):
    """The byte counts that print as `txt` (rounded to 0 or 2 decimals), with one unit of slack."""
    m = re.fullmatch(r"([\d.]+) (\w+)", txt.strip())
    if not m or m.group(2) not in UNITS:
        return {"lo": -1, "hi": -1}
    num, e = m.group(1), UNITS[m.group(2)]
    if e == 0:
        n = int(float(num))
        return {"lo": n, "hi": n}
    dec = len(num.split(".")[1]) if "." in num else 0
    unit = 10 ** (e - dec)
    n = int(num.replace(".", "")) * unit
    return {"lo": max(0, n - unit // 2 - 1), "hi": min(2 ** 31 - 1, n + unit // 2 + 1)}


NOSIZE = {"lo": -1, "hi": -1}


def rx_escape(s):
    return "".join("\\" + c if c in r"\.+*?()|[]{}^$#&-~" else c for c in s)


class Hung(Exception):
    """A command hung: the script ends here."""


class Driver(World):
    ATIME = 7258118400 * 10 ** 9

    def __init__(self, root, binpath, bptrace=None, sid=""):
        super().__init__(root, binpath, bptrace)
        self.sid = sid
        self.ev = []
        self.host = socket.gethostname()
        self.config = ""
        self.traced = False     # record the file-system operations of commands that change repositories
        self.next_faults = self.next_kill = self.nev = None
        self.extra = []         # more bptrace options for every command
        self.together = None    # collects commands for conc() instead of running them
        self.page = 3           # how many names the stand-in for B2 lists at once
        self.next_srv = {}      # plan, kill, slow for the next command's requests to it (see b2.Server.begin)
        self.requests = {}      # command -> how many requests it made last
        self.next_ffail = None  # ("filter" or "unfilter", how, n): the n-th run of that program fails
        self.conf = {"g": {"on": False, "skips": [], "deref": False, "out": ""}, "l": {"on": False, "skips": [], "deref": False, "out": ""}}

    # ---------------------------------------------------------------- environment
    def start(self, cws=("c1",), repos=(("r1", "1 kB"),), init_extra=()):
        for c in cws:
            os.makedirs(self.p("cw", c))
        self.cloud = {r: opt[0]["b2"] for r, _, *opt in repos if opt and opt[0].get("b2")}
        if self.cloud:
            self.srv = Server(self.root, self.cloud, self.page)
            self.env["VP_B2_AUTHORIZE"] = self.srv.url + "/b2api/v3/b2_authorize_account"
        for r, size, *opt in repos:
            self.init_repo(r, size, cws[0], init_extra, **(opt[0] if opt else {}))
        self.freeze()
        self.ev.append({"op": "start", "post": self.observe()})

    def init_repo(self, r, size, cw, extra=(), cache=False, filter=None, b2=0):
        kind = ["backblaze", "-k", Server.KEY, "-a", Server.SECRET, "-b", r, "-c", str(b2)] if b2 else ["filesystem"] + ["--force-cache"] * cache
        rc, o, x = self.run(self.argv(cw, r, ["init", "-p", size, *extra, *kind]))
        if rc != 0:
            raise RuntimeError("init failed: %s" % x)
        if cache or filter or b2:
            self.cached.add(r)
        if filter:
            self.filters[r] = filter
            for name, prog in zip(("filter", "unfilter"), FILTERS[filter]):
                with open(self.p("%s-%s" % (name, r)), "w") as fh:
                    fh.write(FLAKY % {"name": name, "prog": prog})
            with open(self.p("rp", r, "config.toml")) as fh:
                old = fh.read()
            with open(self.p("rp", r, "config.toml"), "w") as fh:
                fh.write("filter = 'sh %s'\nunfilter = 'sh %s'\n%s" % (self.p("filter-" + r), self.p("unfilter-" + r), old))

    def configure(self, cache_size=None, glob=None, local=None):
        """Write configuration files (before start, or followed by env_event)."""
        self.limit = cache_size if cache_size is not None else 2 ** 30
        self.config = self.p("conf.toml")
        self.conf = {"g": self.conf_part(glob or {}), "l": self.conf_part(local)}
        for c, path, extra in ((self.conf["g"], self.config, "cache_size = \"%d B\"\n" % self.limit), (self.conf["l"], self.p(".backpak"), "")):
            if os.path.lexists(path):
                os.unlink(path)
            if c["on"]:
                with open(path, "w") as fh:
                    fh.write(extra + "skips = %s\n" % json.dumps(self.pats(c["skips"])[1::2], ensure_ascii=False))
                    if c["deref"]:
                        fh.write("[backup]\ndereference = true\n")
                    if c["out"]:
                        fh.write("[restore]\noutput = %s\n" % json.dumps(self.real(c["out"])))

    @staticmethod
    def conf_part(c):
        return {"on": c is not None, "skips": list((c or {}).get("skips", [])), "deref": bool((c or {}).get("deref")), "out": (c or {}).get("out", "")}

    def freeze(self):
        """Give every source entry the same access time, in the future so that reading doesn't change it."""
        for top in ("src", "out"):
            for dp, dn, fn in os.walk(self.p(top)):
                for f in [dp] + [os.path.join(dp, x) for x in dn + fn]:
                    s = os.lstat(f)
                    if s.st_atime_ns != self.ATIME:
                        os.utime(f, ns=(self.ATIME, s.st_mtime_ns), follow_symlinks=False)

    def env_event(self, op="edit", **kw):
        self.st.filecache.clear()
        self.freeze()
        self.ev.append({"op": op, "post": self.observe(), **kw})

    def refreeze(self):
        """Record that access times were put back (after something legitimately read or wrote files)."""
        a = self.ev[-1]["post"]
        self.st.filecache = {k: v for k, v in self.st.filecache.items()
                             if not (k[0].startswith(self.p("src")) or k[0].startswith(self.p("out")))}
        self.freeze()
        b = self.observe()
        if a != b:
            self.ev.append({"op": "edit", "post": b})

    # ---------------------------------------------------------------- commands
    MUTATING = ("backup", "copy", "filter", "forget", "prune", "rebuild")

    def cmd(self, op, repo, cw, argl, kill=None, dry=False, faults=None, env=None, pauses=None, **fields):
        argv = self.argv(cw, repo, argl, self.config)
        if self.together is not None:
            e = {"op": op, "repo": repo, "cw": cw, "rc": -1, "dry": dry, "conf": self.conf, "cmd": self.norm(" ".join(argl)), **fields}
            self.together.append((argv, e))
            return e
        pre, killed, faulty, steps, touched = [], False, False, [], []
        faults, kill = faults or self.next_faults, kill or self.next_kill
        log = self.p("trace.log")
        srv = dict(self.next_srv)
        if self.srv:
            self.srv.begin(**srv)
        if srv.get("kill"):
            pass
        elif kill or faults or pauses or (self.traced and op in self.MUTATING):
            pre = [self.bptrace, "-o", log, "-r", self.p(), "-t", str(self.timeout)]
            if kill:
                pre += ["-" + kill[0], str(kill[1])]
            pre += (faults or []) + (pauses or []) + self.extra + ["--"]
        elif self.extra:
            pre = [self.bptrace, "-o", log, "-r", self.p("nowhere"), "-t", str(self.timeout), *self.extra, "--"]
        c = self.p("home/.cache")
        if self.next_ffail:
            os.makedirs(c, exist_ok=True)
            with open(os.path.join(c, "fail-" + self.next_ffail[0]), "w") as fh:
                fh.write("%s %d\n" % self.next_ffail[1:])
        target = fields.get("to", repo)
        before = self.ev[-1]["post"]["r"].get(target)
        began = time.time_ns()
        rc, out, err = self.run(argv, pre, timeout=self.timeout + 10, env=env)
        ended = time.time_ns()
        nev, events = None, []
        if self.srv:
            self.srv.end(rc < 0 or rc in (124, 137))
        if pre:
            with open(log) as fh:
                events = [json.loads(l) for l in fh.read().splitlines()]
            os.unlink(log)
            last = events[-1]
            self.nev = last["events"]
            killed, nev = bool(last["killed"]), last["events"]
            faulty = any(x.get("injected") for x in events)
        if self.srv:
            events = events + self.srv.events
            killed = killed or self.srv.killed
            faulty = faulty or any(not self.transparent(k, h) for _, k, h in self.srv.done if h)
            self.requests[op] = self.srv.n
        e = {"op": op, "repo": repo, "cw": cw, "rc": rc if rc >= 0 else 128 - rc, "killed": killed, "faulty": faulty,
             "cloud": self.clouded(), "ffail": False, "conf": self.conf, "dry": dry, "err": self.norm(self.brief(err)), "cmd": self.norm(" ".join(argl)), **fields}
        if self.next_ffail:
            e["faulty"] = e["ffail"] = os.path.exists(os.path.join(c, "failed"))
            e["kill"] = "%s %s %d: %s" % (*self.next_ffail, e["ffail"])
            for f in os.listdir(c):
                if f.startswith("run."):
                    os.rmdir(os.path.join(c, f))
                elif f != "backpak":
                    os.unlink(os.path.join(c, f))
        if kill and not srv.get("kill"):
            e["kill"] = "%s%d/%s" % (kill[0], kill[1], nev)
        if srv:
            e["kill"] = "%s %s %s" % (srv, [x for x in self.srv.done if x[2]], self.srv.n)
        if faults:
            e["kill"] = "%s %s" % (" ".join(faults), [(x["ev"], self.norm(x["path"])) for x in events if x.get("injected")][:2])
        e["post"] = self.observe()
        if op in ("backup", "filter"):
            new = [] if before is None else set(self.tb.t["rs"][e["post"]["r"][target]]["snaps"]) - set(self.tb.t["rs"][before]["snaps"])
            e["zone"] = self.env["TZ"]
            e["timely"] = sorted(i for i in new if began <= int(self.tb.t["snaps"][i]["time"]) <= ended)
        if before and op in self.MUTATING:
            steps, touched = self.instants(target, before, e["post"]["r"][target], events)
        e["steps"], e["touched"] = steps, touched
        self.ev.append(e)
        self.out = out.decode("utf-8", "replace")
        self.raw = out
        if e["rc"] == 124:
            for k in ("lines", "blocks"):
                e.setdefault(k, [])
            raise Hung()
        return e

    @staticmethod
    def transparent(kind, how):
        """Does the command have to succeed all the same when a request to B2 is answered like this?"""
        again = ("b2_list_file_names", "get", "b2_list_file_versions")
        return kind in again + ("b2_delete_file_version", "put") and how in ("503", "500", "429", "408", "reset") or \
            kind in again + ("put",) and how in ("500after", "resetafter")

    def clouded(self):
        """What the stand-in for B2 noticed about a command."""
        s = self.srv
        return {"on": bool(s), "wrong": sorted(set(s.wrong)) if s else [], "over": sorted(b for b, n in s.limits.items() if s.peak[b] > n) if s else []}

    SWITCH = "create,rename,link,unlink,mkdir,trunc,list,read,openmiss"

    def conc(self, make, pick):
        """Run the commands that the functions in `make` make at the same time. Each stops before each file-system operation that
        others could notice; pick(stopped) says who goes on: stopped is {number: (operation, count so far)}."""
        self.together = []
        try:
            for m in make:
                m()
        finally:
            cmds, self.together = self.together, None
        if self.srv:
            self.srv.begin()
        procs, pipes, logs, end = [], [], [], time.time() + self.timeout * 4
        sel = selectors.DefaultSelector()
        for i, (argv, e) in enumerate(cmds):
            (r1, w1), (r2, w2) = os.pipe(), os.pipe()
            os.set_inheritable(r1, True)
            os.set_inheritable(w2, True)
            log = self.p("trace%d.log" % i)
            pre = [self.bptrace, "-o", log, "-r", self.p("rp"), "-r", self.p("cw"), "-R", "-m", self.SWITCH, "-s", "%d:%d" % (r1, w2),
                   "-t", str(self.timeout * 4), *self.extra, "--"]
            with open(self.p("err%d" % i), "wb") as fh:
                procs.append(subprocess.Popen([*pre, *argv], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=fh, env=self.env,
                                              cwd=self.root, start_new_session=True, close_fds=True, pass_fds=(r1, w2)))
            os.close(r1)
            os.close(w2)
            pipes.append((w1, r2))
            logs.append(log)
            sel.register(r2, selectors.EVENT_READ, i)
        stopped, count, running, order = {}, [0] * len(cmds), set(range(len(cmds))), []
        buf = [b""] * len(cmds)
        while running or stopped:
            if not running:
                i = pick(stopped)
                order.append((i, *stopped[i][0].split(" ", 1)))
                del stopped[i]
                count[i] += 1
                running.add(i)
                try:
                    os.write(pipes[i][0], b".")
                except BrokenPipeError:     # it's gone, after its time ran out
                    pass
            got = sel.select(max(0.1, end - time.time()))
            for k, _ in got:
                i = k.data
                x = os.read(k.fd, 65536)
                buf[i] += x
                if not x:
                    sel.unregister(k.fd)
                    running.discard(i)
                elif buf[i].endswith(b"\n"):
                    stopped[i] = (self.norm(buf[i].decode("utf-8", "replace").strip()), count[i])
                    buf[i] = b""
                    running.discard(i)
            if not got and time.time() > end:
                break
        for (w, r), p in zip(pipes, procs):
            os.close(w)
            os.close(r)
        for i, (p, (argv, e)) in enumerate(zip(procs, cmds)):
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 124
            with open(self.p("err%d" % i), "rb") as fh:
                err = fh.read().decode("utf-8", "replace")
            e.update(rc=rc if rc >= 0 else 128 - rc, err=self.norm(self.brief(err)))
            for f in (logs[i], self.p("err%d" % i)):
                if os.path.exists(f):
                    os.unlink(f)
        runs = []
        for i, k, path in order:
            if not runs or runs[-1][0] != i:
                runs.append([i, 0, ""])
            runs[-1][1] += 1
            runs[-1][2] = "%s %s" % (k, path)
        if self.srv:
            self.srv.end(True)
        ev = {"op": "conc", "cloud": self.clouded(), "repo": cmds[0][1]["repo"], "cw": cmds[0][1]["cw"], "cmds": [e for _, e in cmds], "rc": max(e["rc"] for _, e in cmds),
              "killed": False, "faulty": False, "ffail": False, "dry": False, "conf": self.conf, "steps": [], "touched": [],
              "cmd": " || ".join("%s -> %d" % (e["cmd"], e["rc"]) for _, e in cmds), "err": "; ".join(e["err"] for _, e in cmds),
              "order": ["%d: %d up to %s" % tuple(x) for x in runs], "post": self.observe()}
        self.ev.append(ev)
        if ev["rc"] == 124:
            raise Hung()
        return ev

    def instants(self, repo, before, after, events):
        """The visible states the repository went through, from the file-system operations in order."""
        top = self.p("rp", repo) + "/"
        R0, R1 = self.tb.t["rs"][before], self.tb.t["rs"][after]
        known = {}
        for R in (R1, R0):
            for kind, d, x in (("packs", "packs/", ".pack"), ("idx", "indexes/", ".index"), ("snaps", "snapshots/", ".snapshot")):
                for o in R[kind]:
                    known[d + (o if kind == "snaps" else self.tb.ident(o)) + x] = (kind, o)
        have = {n for n in known if known[n][1] in R0[known[n][0]]}
        rx = re.compile(r"(packs/[^/]*\.pack|indexes/[^/]*\.index|snapshots/[^/]*\.snapshot)$")
        partial, dirty, bad = set(), set(), set(R0["bad"])
        steps, touched = [], set()
        last = None

        def note(what, name):
            nonlocal last
            R = {"packs": sorted(known[n][1] for n in have if known[n][0] == "packs"),
                 "idx": sorted(known[n][1] for n in have if known[n][0] == "idx"),
                 "snaps": sorted(known[n][1] for n in have if known[n][0] == "snaps"), "bad": sorted(bad | partial)}
            st = {"r": self.tb.mid(R), "ev": what, "name": name, "synced": True}
            if last != st["r"] or what != "publish":
                steps.append(st)
            last = st["r"]
            return st
        for x in events:
            if x.get("ret", -1) < 0 or not x.get("mut"):
                continue
            k, a, b = x["ev"], x["path"], x.get("path2", "")
            for q in (a, b):
                m = re.match(re.escape(self.p("rp")) + r"/([^/]+)/", q)
                if m and k not in ("fsync",):
                    touched.add(m.group(1))
            ra = a[len(top):] if a.startswith(top) else None
            rb = b[len(top):] if b.startswith(top) else None
            if k in ("create", "write", "trunc"):
                dirty.add(a)
                if ra and rx.match(ra):
                    partial.add(ra)
                    note("write", ra)
            elif k == "fsync":
                dirty.discard(a)
            elif k in ("rename", "link"):
                if k == "rename" and ra and rx.match(ra):
                    have.discard(ra)
                    bad.discard(ra)
                    partial.discard(ra)
                    note("remove", ra)
                if rb and rx.match(rb):
                    if rb in known:
                        have.add(rb)
                    else:
                        bad.add(rb)
                    note("publish", rb)["synced"] = a not in dirty
                if a in dirty:
                    dirty.add(b)
                    if k == "rename":
                        dirty.discard(a)
                else:
                    dirty.discard(b)
            elif k == "unlink" and ra and rx.match(ra):
                have.discard(ra)
                bad.discard(ra)
                partial.discard(ra)
                note("remove", ra)
        return steps, sorted(touched)

    @staticmethod
    def brief(err):
        ls = [l for l in err.splitlines() if l.strip() and not re.match(r"^\s+\d+: |^\s+at |Stack backtrace|^INFO", l)]
        return "".join(c for c in " | ".join(ls)[:300] if 32 <= ord(c) < 127 and c not in '"\\')

    def pats(self, pats):
        out = []
        for p in pats:
            lit = rx_escape(self.real(p["lit"]))
            out += ["-s", {"sub": "%s", "end": "%s$", "beg": "^%s", "all": "^%s$"}[p["kind"]] % lit]
        return out

    def backup(self, repo, cw, paths, pats=(), deref=None, author="", tags=(), repeat=False, empty=False, dry=False, **kw):
        real = [os.path.realpath(self.p(p)) for p in paths]
        L = "?"
        if deref or self.conf["g"]["deref"]:
            flat = {}
            for p in real:
                self.walk(p, deref=True, out=flat)
            L = self.tb.tree(flat)
        args = ["backup"]
        if deref is not None:
            args += ["-L" if deref else "-P"]
        args += ["--allow-repeat"] * repeat + ["--allow-empty"] * empty + ["-n"] * dry
        if author:
            args += ["-a", author]
        for t in tags:
            args += ["-t", t]
        args += self.pats(pats) + [self.p(p) for p in paths]
        return self.cmd("backup", repo, cw, args, dry=dry, paths=[self.norm(p) for p in real], pats=list(pats),
                        deref={None: "", True: "L", False: "P"}[deref], L=L, author=author, host=self.host, tags=sorted(set(tags)), repeat=repeat,
                        empty=empty, **kw)

    def copy(self, repo, to, cw, snaps=(), all=False, pats=(), dry=False, quiet=False, **kw):
        args = ["copy"] + ["-n"] * dry + ["-q"] * quiet + self.pats(pats) + ["--to", self.where(to)]
        args += ["--all"] if all else list(snaps)
        return self.cmd("copy", repo, cw, args, dry=dry, to=to, args=list(snaps), all=all, pats=list(pats), **kw)

    def filter(self, repo, cw, snap, pats, keep=False, author="", tags=(), dry=False, **kw):
        args = ["filter-snapshot"] + ["-n"] * dry + ["-k"] * keep
        if author and not keep:
            args += ["-a", author]
        if not keep:
            for t in tags:
                args += ["-t", t]
        args += self.pats(pats) + [snap]
        return self.cmd("filter", repo, cw, args, dry=dry, arg=snap, pats=list(pats), keep=keep,
                        author="" if keep else author, host=self.host, tags=[] if keep else sorted(set(tags)), **kw)

    def forget(self, repo, cw, args, dry=False, **kw):
        return self.cmd("forget", repo, cw, ["forget"] + ["-n"] * dry + list(args), dry=dry, args=list(args), **kw)

    def prune(self, repo, cw, dry=False, **kw):
        return self.cmd("prune", repo, cw, ["prune"] + ["-n"] * dry, dry=dry, **kw)

    def rebuild(self, repo, cw, dry=False, **kw):
        return self.cmd("rebuild", repo, cw, ["rebuild-index"] + ["-n"] * dry, dry=dry, **kw)

    def restore(self, repo, cw, snap, out="", delete=False, times=False, perms=False, dry=False, **kw):
        args = ["restore"] + ["-n"] * dry + ["-d"] * delete + ["-t"] * times + ["-p"] * perms
        if out:
            args += ["-o", self.p("out", out)]
        e = self.cmd("restore", repo, cw, args + [snap], dry=dry, arg=snap, out="/W/out/" + out if out else "",
                     **{"del": delete}, times=times, perms=perms, **kw)
        e["lines"] = self.lines(r"^[-+CMOPTA] ")
        if not dry:
            self.refreeze()
        return e

    def lines(self, rx=None):
        return [self.norm(l) for l in self.out.split("\n") if l and (rx is None or re.match(rx, l))]

    def ls(self, repo, cw, snap):
        e = self.cmd("ls", repo, cw, ["ls", snap], arg=snap)
        e["lines"] = self.lines()
        return e

    def dump(self, repo, cw, snap, path, out=""):
        args = ["dump"] + (["-o", self.p("out", out)] if out else []) + [snap, path]
        e = self.cmd("dump", repo, cw, args, arg=snap, path=path, out="/W/out/" + out if out else "")
        data = self.raw
        if out:
            try:
                with open(self.p("out", out), "rb") as fh:
                    data = fh.read()
            except OSError:
                data = b""
        e["content"] = self.tb.content(D.ident(data))
        e["lines"] = [self.norm(l) for l in data.decode("utf-8", "replace").split("\n") if l] if len(data) < 200000 else []
        if out:
            self.refreeze()
        return e

    def catsnap(self, repo, cw, snap):
        e = self.cmd("catsnap", repo, cw, ["cat", "snapshot", snap], arg=snap)
        e["val"] = {"author": "", "tags": [], "paths": [], "tree": "", "time": "", "tz": ""}
        try:
            v = json.loads(self.out)
            e["val"] = {"author": v["author"], "tags": sorted(v["tags"]), "paths": sorted(self.norm(x) for x in v["paths"]),
                        "tree": v["tree"], "time": str(D.when(v["time"])[0]), "tz": D.when(v["time"])[1]}
        except (ValueError, KeyError, D.Bad):
            pass
        return e

    def cat(self, repo, cw, what, ident):
        label = self.tb.name({"pack": "p", "index": "i", "blob": "b"}[what], ident)
        e = self.cmd("cat", repo, cw, ["cat", what, ident], what=what, obj=label)
        e["val"] = "?"
        try:
            def man(v):
                return self.tb.man([(x["type"], x["length"], x["id"]) for x in v])
            if e["rc"] != 0:
                pass
            elif what == "pack":
                e["val"] = man(json.loads(self.out))
            elif what == "index":
                v = json.loads(self.out)
                e["val"] = {"packs": {self.tb.name("p", k): man(m) for k, m in v["packs"].items()},
                            "sup": sorted(self.tb.name("i", x) for x in v["supersedes"])}
            else:
                b = self.st.blob.get(ident)
                if b is not None and self.raw == b:
                    e["val"] = label
                elif b is not None and self.tree_json(b) == json.loads(self.out):
                    e["val"] = label
        except (ValueError, KeyError, TypeError):
            pass
        return e

    def tree_json(self, b):
        """How `cat blob` shows a tree (times are shown as text: checked for presence only)."""
        try:
            t = D.decode_tree(b)
        except Exception:
            return None
        got = json.loads(self.out)
        out = {}
        for name, n in t.items():
            g = got.get(name)
            if not isinstance(g, dict):
                return None
            m = dict(g.get("metadata") or {})
            for k in ("uid", "gid"):
                if m.get(k) != n[k]:
                    return None
            key, val = {"f": ("chunks", n.get("chunks")), "d": ("tree", n.get("tree")), "l": ("symlink", n.get("target"))}[n["k"]]
            if g.get(key) != val:
                return None
            out[name] = g
        return out

    def diff(self, repo, cw, a, b=None, meta=False):
        e = self.cmd("diff", repo, cw, ["diff"] + ["-m"] * meta + [a] + ([b] if b else []), a=a, b=b or "", fs=b is None, meta=meta)
        e["lines"] = self.lines()
        return e

    def check(self, repo, cw, read=False):
        return self.cmd("check", repo, cw, ["check"] + ["-r"] * read, read=read)

    def snapshots(self, repo, cw, args=(), reverse=False, sizes=False, stat=False, fsizes=False, meta=False):
        a = ["snapshots"] + ["-r"] * reverse + ["-s"] * sizes + ["--stat"] * stat + ["-f"] * fsizes + ["-m"] * meta
        e = self.cmd("snapshots", repo, cw, a + list(args), args=list(args), reverse=reverse, sizes=sizes, stat=stat,
                     fsizes=fsizes, meta=meta)
        e["blocks"] = self.blocks(stat, fsizes)
        return e

    def blocks(self, stat, fsizes):
        out, b = [], None
        for l in self.out.split("\n"):
            m = re.match(r"^snapshot ([0-9a-v]{45})(?: \((.*)\))?$", l)
            if m:
                b = {"id": m.group(1), "tags": sorted((m.group(2) or "").split()), "author": "", "date": "", "paths": [], "hassize": False,
                     "total": NOSIZE, "files": NOSIZE, "meta": NOSIZE, "new": NOSIZE, "reused": NOSIZE, "lines": [], "fsz": []}
                out.append(b)
            elif b is None:
                continue
            elif l.startswith("Author: "):
                b["author"] = l[8:]
            elif l.startswith("Date:   "):
                b["date"] = l[8:]
            elif l.startswith("Sizes: "):
                m = re.match(r"^Sizes: (.*) total \((.*) files, (.*) metadata / (.*) new, (.*) reused\)$", l)
                if m:
                    b["hassize"] = True
                    b.update(zip(("total", "files", "meta", "new", "reused"), map(size_range, m.groups())))
            elif l.startswith("  - "):
                b["paths"].append(self.norm(l[4:]))
            elif l.startswith(" ") and (stat or fsizes):
                m = re.match(r"^ (.*?) *\| (.*) new, (.*) reused$", l) if fsizes else None
                body = m.group(1) if m else l[1:].rstrip(" ") if fsizes else l[1:]
                if stat:
                    b["lines"].append(self.norm(body))
                if m or not stat:
                    b["fsz"].append({"p": (body[2:] if stat else body) if m else "?" + l,
                                     "new": size_range(m.group(2)) if m else NOSIZE,
                                     "reused": size_range(m.group(3)) if m else NOSIZE})
        for b in out:
            b["paths"].sort()
        return out

    def usage(self, repo, cw):
        e = self.cmd("usage", repo, cw, ["usage"])
        o = self.out

        def f(rx, d="-1"):
            m = re.search(rx, o, re.M)
            return m.group(1) if m else d
        e["u"] = {"nsnaps": int(f(r"^(\d+) snapshots?\b")), "uniq": size_range(f(r"^(.*) unique data")),
                  "reused": size_range(f(r"^(.*) reused")), "nidx": int(f(r"^(\d+) index(?:es)? references? ")),
                  "npacks": int(f(r"references? (\d+) pack")), "hasunused": "unused data" in o,
                  "unused": size_range(f(r"including (.*) unused data")), "snaps": size_range(f(r"^snapshots: +(.*)$")),
                  "idx": size_range(f(r"^indexes: +(.*)$")), "packs": size_range(f(r"^packs: +(.*)$")),
                  "total": size_range(f(r"^total: +(.*)$"))}
        return e

    # ---------------------------------------------------------------- result
    def trace(self):
        return {"id": self.sid, "X": self.tb.dump(), "ev": self.ev}
