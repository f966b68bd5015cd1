"""A stand-in for Backblaze B2: buckets are the directories below rp/ of a world, newest versions only; older ones are kept in memory.
Each request can be answered wrongly (plan), or be the end of the client (kill)."""
import base64, hashlib, json, os, signal, socket, threading, time, urllib.parse
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer


class Bucket:
    def __init__(self, top, tmp):
        self.top, self.tmp, self.tag = top, tmp, os.path.basename(top)
        self.ids, self.old, self.n = {}, {}, 0      # name -> id of the newest version; name -> [(id, data)], oldest first

    def path(self, name):
        return os.path.join(self.top, name)

    def names(self):
        out = []
        for dp, dn, fn in os.walk(self.top):
            rel = os.path.relpath(dp, self.top)
            out += [f if rel == "." else rel + "/" + f for f in fn]
        return sorted(n for n in out if n != "config.toml")

    def ident(self, name):
        if name not in self.ids:
            self.n += 1
            self.ids[name] = "4_z%s_%06d" % (self.tag, self.n)
        return self.ids[name]

    def put(self, name, data):
        if os.path.exists(self.path(name)):
            with open(self.path(name), "rb") as fh:
                self.old.setdefault(name, []).append((self.ident(name), fh.read()))
            del self.ids[name]
        self.show(name, data)
        return self.ident(name)

    def show(self, name, data):
        os.makedirs(os.path.dirname(self.path(name)), exist_ok=True)
        t = os.path.join(self.tmp, "up%d" % threading.get_ident())
        with open(t, "wb") as fh:
            fh.write(data)
        os.rename(t, self.path(name))

    def versions(self):
        out = []
        for n in sorted(set(self.names()) | set(k for k, v in self.old.items() if v)):
            if os.path.exists(self.path(n)):
                out.append((n, self.ident(n), os.path.getsize(self.path(n))))
            out += [(n, i, len(d)) for i, d in reversed(self.old.get(n, []))]
        return out

    def delete(self, name, ident):
        """-> "gone" (nothing of that name is left), "old" or "back" (an older version came back), or None."""
        if os.path.exists(self.path(name)) and self.ident(name) == ident:
            del self.ids[name]
            if self.old.get(name):
                i, data = self.old[name].pop()
                self.show(name, data)
                self.ids[name] = i
                return "back"
            os.unlink(self.path(name))
            return "gone"
        for v in self.old.get(name, []):
            if v[0] == ident:
                self.old[name].remove(v)
                return "old"
        return None


class Server:
    KEY, SECRET = "keyid", "app/key+secret"

    def __init__(self, root, limits, page=3):
        """limits: {bucket: concurrent_connections}"""
        self.root, self.limits, self.page = root, limits, page
        self.tmp = os.path.join(root, "b2")
        os.makedirs(self.tmp, exist_ok=True)
        self.lock = threading.RLock()
        self.buckets = {b: Bucket(os.path.join(root, "rp", b), self.tmp) for b in limits}
        for b in self.buckets.values():
            for d in ("packs", "indexes", "snapshots"):
                os.makedirs(b.path(d), exist_ok=True)
        self.proc = None
        self.begin()
        srv = self
        class H(Handler):
            s = srv
        self.http = Counting(("127.0.0.1", 0), H)
        self.http.srv = self
        self.url = "http://127.0.0.1:%d" % self.http.server_address[1]
        self.thread = threading.Thread(target=self.http.serve_forever, kwargs={"poll_interval": .05}, daemon=True)
        self.thread.start()

    def stop(self):
        self.http.shutdown()
        self.http.server_close()

    def begin(self, plan=None, kill=None, slow=0):
        """A command starts. plan: {n: how its n-th request goes wrong}; kill: (n, "before" or "after")."""
        self.n, self.plan, self.kill, self.slow = 0, dict(plan or {}), kill, slow
        self.done, self.killed, self.events, self.wrong = [], False, [], []
        self.active, self.now, self.peak = 0, {b: 0 for b in self.limits}, {b: 0 for b in self.limits}

    def end(self, killed):
        """Wait for requests under way; they may still have an effect."""
        if killed:
            with socket.create_connection(self.http.server_address) as c:   # what came before this is known once this is answered
                c.sendall(b"GET /hello HTTP/1.1\r\nHost: me\r\n\r\n")
                c.recv(100)
        t = time.time() + 10
        while self.active and time.time() < t:
            time.sleep(.002)

    def saved(self):
        """What isn't in the directories."""
        return {n: (dict(b.ids), {k: list(v) for k, v in b.old.items()}, b.n) for n, b in self.buckets.items()}

    def restore(self, saved):
        for n, (ids, old, k) in saved.items():
            b = self.buckets[n]
            b.ids, b.old, b.n = dict(ids), {k: list(v) for k, v in old.items()}, k

    def note(self, ev, b, name, old=None):
        p = os.path.join(self.root, "rp", b, name)
        if ev == "rename":
            self.events.append({"ev": "rename", "path": os.path.join(self.tmp, "up"), "path2": p, "ret": 0, "mut": 1})
        else:
            self.events.append({"ev": "unlink", "path": p, "ret": 0, "mut": 1})

    def bad(self, what):
        self.wrong.append(what)


class Counting(ThreadingHTTPServer):
    """Knows how many connections there are."""
    daemon_threads = True
    request_queue_size = 128

    def process_request(self, *a):
        with self.srv.lock:
            self.srv.active += 1
        super().process_request(*a)

    def process_request_thread(self, *a):
        try:
            super().process_request_thread(*a)
        finally:
            with self.srv.lock:
                self.srv.active -= 1

    def handle_error(self, *a):
        pass


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    s = None

    def log_message(self, *a):
        pass

    def answer(self, code, body, cut=None, ctype="application/json"):
        data = body if isinstance(body, bytes) else json.dumps(body).encode()
        self.send_response(code)
        self.send_header("Content-Type", ctype)
        self.send_header("Content-Length", str(len(data)))
        self.send_header("Connection", "close")
        if len(data) < 2 or cut is not None or self.command == "POST":     # (what a POST answers needn't be read)
            self.leave()
        self.end_headers()
        s = self.s
        if cut is not None:
            self.wfile.write(data[:cut])
        elif len(data) > 1:
            self.wfile.write(data[:-1])
            self.wfile.flush()
            time.sleep(s.slow)
            self.leave()    # (before the client can know it's over)
            self.wfile.write(data[-1:])
        else:
            self.wfile.write(data)
        self.close_connection = True

    def leave(self):
        with self.s.lock:
            if self.inside:
                self.s.now[self.inside] -= 1
            self.inside = None

    def fail(self, code, why):
        self.answer(code, {"status": code, "code": why, "message": why})

    def do_GET(self):
        self.handle_one(None)

    def do_POST(self):
        n = int(self.headers.get("Content-Length") or 0)
        data = b""
        while len(data) < n:
            x = self.rfile.read(min(1 << 20, n - len(data)))
            if not x:
                break
            data += x
        if len(data) == n:
            self.handle_one(data)
        else:       # the client went away
            self.close_connection = True

    def handle_one(self, data):
        s = self.s
        if self.path == "/hello":
            self.inside = None
            return self.answer(200, {})
        u = urllib.parse.urlsplit(self.path)
        q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
        kind, bucket = self.kind(u.path, q)
        with s.lock:
            n = s.n = s.n + 1
            how = s.plan.get(n, "")
            self.inside = bucket if bucket in s.now else None
            if self.inside:
                s.now[bucket] += 1
                s.peak[bucket] = max(s.peak[bucket], s.now[bucket])
        try:
            if s.kill == (n, "before"):
                return self.die()
            code = {"503": 503, "500": 500, "429": 429, "404": 404, "408": 408, "403": 403, "401": 401}.get(how)
            if s.slow:
                time.sleep(s.slow)
            if code or how == "reset":
                with s.lock:
                    s.done.append((n, kind, how))
                if how == "reset":
                    self.leave()
                    self.close_connection = True
                    return
                return self.fail(code, "planned")
            with s.lock:
                res = self.process(kind, bucket, u.path, q, data)
                s.done.append((n, kind, how))
            if s.kill == (n, "after"):
                return self.die()
            if how == "500after":
                return self.fail(500, "planned")
            if how == "resetafter":
                self.leave()
                self.close_connection = True
                return
            cut = None
            if how == "cut":
                cut = len(res[1]) // 2 if isinstance(res[1], bytes) else 3
            self.answer(*res, cut=cut)
        except OSError:     # the client went away
            self.close_connection = True
        finally:
            self.leave()

    def die(self):
        self.s.killed = True
        self.close_connection = True
        try:
            os.killpg(self.s.proc.pid, signal.SIGKILL)
        except OSError:
            pass

    def kind(self, path, q):
        if path.startswith("/file/"):
            return "get", path.split("/")[2]
        if path.startswith("/up/"):
            return "put", path.split("/")[2]
        op = path.rsplit("/", 1)[-1]
        b = q.get("bucketId", "")
        return op, b[3:] if b.startswith("id-") else ""

    def process(self, kind, bucket, path, q, data):
        s = self.s
        auth = self.headers.get("Authorization", "")
        no = lambda code, why: (code, {"status": code, "code": why, "message": why})
        if kind == "b2_authorize_account":
            x = auth[5:].strip() if auth.startswith("Basic") else ""
            if x != base64.b64encode(("%s:%s" % (s.KEY, s.SECRET)).encode()).decode():
                return no(401, "unauthorized")
            return 200, {"accountId": "acc", "authorizationToken": "tok", "apiInfo": {"storageApi": {
                "apiUrl": s.url, "downloadUrl": s.url, "capabilities": ["listBuckets", "listFiles", "readFiles", "writeFiles", "deleteFiles"]}}}
        if kind == "put":
            name = urllib.parse.unquote(self.headers.get("X-Bz-File-Name", ""))
            if auth != "uptok-" + bucket:
                return no(401, "bad_auth_token")
            if bucket not in s.buckets or not name:
                return no(400, "bad_request")
            if self.headers.get("X-Bz-Content-Sha1") == "hex_digits_at_end":
                body, sha = data[:-40], data[-40:].decode("latin1")
            else:
                body, sha = data, self.headers.get("X-Bz-Content-Sha1", "")
            if hashlib.sha1(body).hexdigest() != sha:
                s.bad("upload of %s with a wrong checksum" % name)
                return no(400, "bad_request")
            if "/" in name and name.split("/")[0] not in ("packs", "indexes", "snapshots") or ".." in name or name.startswith("/") or name == "config.toml":
                s.bad("upload to %s" % name)
                return no(400, "bad_request")
            i = s.buckets[bucket].put(name, body)
            s.note("rename", bucket, name)
            return 200, {"fileId": i, "fileName": name, "contentLength": len(body), "action": "upload"}
        if auth != "tok":
            return no(401, "bad_auth_token")
        if kind == "b2_list_buckets":
            if q.get("accountId") != "acc":
                return no(400, "bad_request")
            return 200, {"buckets": [{"bucketName": b, "bucketId": "id-" + b} for b in sorted(s.buckets) if q.get("bucketName", b) == b]}
        if kind == "get":
            name = urllib.parse.unquote(path.split("/", 3)[3])
            b = s.buckets.get(bucket)
            if b is None or name not in b.names():
                return no(404, "not_found")
            with open(b.path(name), "rb") as fh:
                return 200, fh.read()
        if kind == "b2_delete_file_version":
            try:
                j = json.loads(data)
                name, ident = j["fileName"], j["fileId"]
            except (ValueError, KeyError, TypeError):
                return no(400, "bad_request")
            for b, x in s.buckets.items():      # IDs are unique to a bucket's name here
                if ident in [i for n, i, _ in x.versions() if n == name]:
                    if x.delete(name, ident) == "gone":
                        s.note("unlink", b, name)
                    return 200, {"fileId": ident, "fileName": name}
            return no(400, "file_not_present")
        b = s.buckets.get(bucket)
        if b is None:
            return no(400, "bad_bucket_id")
        if kind == "b2_get_upload_url":
            return 200, {"bucketId": "id-" + bucket, "uploadUrl": "%s/up/%s" % (s.url, bucket), "authorizationToken": "uptok-" + bucket}
        size = max(1, min(s.page, int(q.get("maxFileCount", "100"))))
        if kind == "b2_list_file_names":
            ns = [n for n in b.names() if n.startswith(q.get("prefix", "")) and n >= q.get("startFileName", "")]
            return 200, {"files": [{"action": "upload", "fileName": n, "contentLength": os.path.getsize(b.path(n)), "fileId": b.ident(n)} for n in ns[:size]],
                         "nextFileName": ns[size] if len(ns) > size else None}
        size = max(1, int(q.get("maxFileCount", "100")))
        if kind == "b2_list_file_versions":
            vs = [v for v in b.versions() if v[0].startswith(q.get("prefix", "")) and v[0] >= q.get("startFileName", "")]
            if q.get("startFileId"):
                while vs and vs[0][0] == q["startFileName"] and vs[0][1] != q["startFileId"]:
                    vs.pop(0)
            return 200, {"files": [{"action": "upload", "fileName": n, "contentLength": z, "fileId": i} for n, i, z in vs[:size]],
                         "nextFileName": vs[size][0] if len(vs) > size else None, "nextFileId": vs[size][1] if len(vs) > size else None}
        return no(400, "bad_request")
