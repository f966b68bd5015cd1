"""Independent decoder of backpak's repository format (no backpak code involved).

Used as the projection from files on disk to the specification's state: it verifies every ID
against the bytes, so an object that is torn, corrupted or misnamed shows up as "not ok".
"""
import ctypes, datetime, hashlib, os, re, struct, zoneinfo

_z = ctypes.CDLL("libzstd.so.1")
_z.ZSTD_createDStream.restype = ctypes.c_void_p
_z.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]
_z.ZSTD_initDStream.argtypes = [ctypes.c_void_p]
_z.ZSTD_initDStream.restype = ctypes.c_size_t
_z.ZSTD_isError.argtypes = [ctypes.c_size_t]


class _Buf(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]


_z.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.POINTER(_Buf), ctypes.POINTER(_Buf)]
_z.ZSTD_decompressStream.restype = ctypes.c_size_t


class Bad(Exception):
    pass


def unzstd(data, whole=True):
    """Decompress one zstd frame; returns (bytes, bytes consumed)."""
    ds = _z.ZSTD_createDStream()
    try:
        _z.ZSTD_initDStream(ds)
        src = ctypes.create_string_buffer(data, len(data))
        i = _Buf(ctypes.cast(src, ctypes.c_void_p), len(data), 0)
        n = 1 << 18
        dst = ctypes.create_string_buffer(n)
        out = []
        while True:
            o = _Buf(ctypes.cast(dst, ctypes.c_void_p), n, 0)
            r = _z.ZSTD_decompressStream(ds, ctypes.byref(o), ctypes.byref(i))
            if _z.ZSTD_isError(r):
                raise Bad("zstd error")
            if o.pos:
                out.append(dst.raw[:o.pos])
            if r == 0:
                break
            if i.pos >= i.size and o.pos < n:
                if whole:
                    break       # no end mark; whether all of it came is for its hash to say
                raise Bad("zstd truncated")
        if whole and i.pos != i.size:
            raise Bad("trailing bytes after zstd frame")
        return b"".join(out), i.pos
    finally:
        _z.ZSTD_freeDStream(ds)


_z.ZSTD_compress.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
_z.ZSTD_compress.restype = ctypes.c_size_t
_z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
_z.ZSTD_compressBound.restype = ctypes.c_size_t


def zstd(data):
    n = _z.ZSTD_compressBound(len(data))
    dst = ctypes.create_string_buffer(n)
    r = _z.ZSTD_compress(dst, n, data, len(data), 3)
    assert not _z.ZSTD_isError(r)
    return dst.raw[:r]


def cbor(b, i=0):
    """Decode one CBOR item at i; returns (value, next)."""
    try:
        ib = b[i]
    except IndexError:
        raise Bad("cbor truncated")
    mt, ai = ib >> 5, ib & 31
    i += 1
    if ai < 24:
        v = ai
    elif ai in (24, 25, 26, 27):
        n = 1 << (ai - 24)
        if i + n > len(b):
            raise Bad("cbor truncated")
        v = int.from_bytes(b[i:i + n], "big")
        if mt == 7:
            if ai == 24:
                return ("simple", v), i + n
            return struct.unpack({2: ">e", 4: ">f", 8: ">d"}[n], b[i:i + n])[0], i + n
        i += n
    elif ai == 31:
        v = None
    else:
        raise Bad("cbor bad info")
    if mt == 0:
        return v, i
    if mt == 1:
        return -1 - v, i
    if mt in (2, 3):
        if v is None:
            parts = []
            while b[i] != 0xFF:
                x, i = cbor(b, i)
                parts.append(x)
            return (b"".join(parts) if mt == 2 else "".join(parts)), i + 1
        if i + v > len(b):
            raise Bad("cbor truncated")
        s = bytes(b[i:i + v])
        return (s if mt == 2 else s.decode("utf-8")), i + v
    if mt == 4:
        out = []
        while v is None or len(out) < v:
            if v is None and b[i] == 0xFF:
                i += 1
                break
            x, i = cbor(b, i)
            out.append(x)
        return out, i
    if mt == 5:
        out = {}
        n = 0
        while v is None or n < v:
            if v is None and b[i] == 0xFF:
                i += 1
                break
            k, i = cbor(b, i)
            x, i = cbor(b, i)
            if k in out:
                raise Bad("cbor duplicate key")
            out[k] = x
            n += 1
        return out, i
    if mt == 6:
        return cbor(b, i)
    if ai == 20:
        return False, i
    if ai == 21:
        return True, i
    if ai == 22:
        return None, i
    return ("simple", v), i


def cbor_all(b):
    v, i = cbor(b)
    if i != len(b):
        raise Bad("trailing cbor")
    return v


_ALPH = "0123456789abcdefghijklmnopqrstuv"


def b32(raw):
    n = int.from_bytes(raw, "big")
    bits = len(raw) * 8
    pad = (-bits) % 5
    n <<= pad
    return "".join(_ALPH[(n >> (5 * k)) & 31] for k in range((bits + pad) // 5 - 1, -1, -1))


def ident(data):
    return b32(hashlib.sha224(data).digest())


EMPTY_TREE = ident(b"\xa0")


def _blobs(manifest):
    return [(e["type"], e["length"], b32(e["id"])) for e in manifest]


def decode_pack(data, want=None):
    """-> (manifest [(type, len, id)], {id: bytes}); raises Bad unless everything matches."""
    try:
        if data[:9] != b"MKBAKPAK1":
            raise Bad("pack magic")
        ml = int.from_bytes(data[-4:], "big")
        if ml + 13 > len(data):
            raise Bad("pack manifest length")
        man, _ = unzstd(data[-4 - ml:-4])
        if want is not None and ident(man) != want:
            raise Bad("pack id")
        manifest = _blobs(cbor_all(man))
        body, _ = unzstd(data[9:-4 - ml])
        blobs, at = {}, 0
        for (t, n, i) in manifest:
            x = body[at:at + n]
            at += n
            if ident(x) != i:
                raise Bad("blob id")
            blobs[i] = x
        if at != len(body):
            raise Bad("pack has bytes beyond its manifest")
        return manifest, blobs
    except Bad:
        raise
    except Exception as e:
        raise Bad("pack: %r" % e)


def decode_manifest_only(data, want=None):
    ml = int.from_bytes(data[-4:], "big")
    man, _ = unzstd(data[-4 - ml:-4])
    if want is not None and ident(man) != want:
        raise Bad("pack id")
    return _blobs(cbor_all(man))


def decode_index(data, want=None):
    try:
        if data[:9] != b"MKBAKIDX1":
            raise Bad("index magic")
        raw, _ = unzstd(data[9:])
        if want is not None and ident(raw) != want:
            raise Bad("index id")
        d = cbor_all(raw)
        return {"sup": sorted(b32(x) for x in d["supersedes"]),
                "packs": {b32(k): _blobs(v) for k, v in d["packs"].items()},
                "id": ident(raw)}
    except Bad:
        raise
    except Exception as e:
        raise Bad("index: %r" % e)


_WHEN = re.compile(r"^(-?\d{4,6})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?([+-]\d\d:\d\d)(?:\[(.*)\])?$")


def when(text):
    """RFC 9557 -> (nanoseconds since 1970, time zone)."""
    m = _WHEN.match(text)
    if not m:
        raise Bad("time " + text)
    y, mo, d, h, mi, sec = map(int, m.groups()[:6])
    t = (datetime.datetime(y, mo, d, h, mi, sec) - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)
    o = int(m[8][1:3]) * 3600 + int(m[8][4:]) * 60
    return (t - (-o if m[8][0] == "-" else o)) * 10 ** 9 + int((m[7] or "0").ljust(9, "0")), m[9] or m[8].replace("+00:00", "UTC")


def local(ns, tz):
    """-> the moment's local date and time."""
    t = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=ns // 10 ** 9)
    if tz[0] in "+-":
        o = datetime.timedelta(hours=int(tz[1:3]), minutes=int(tz[4:6]))
        return t.astimezone(datetime.timezone(-o if tz[0] == "-" else o))
    return t.astimezone(zoneinfo.ZoneInfo(tz))


def date(ns, tz):
    """As `snapshots` prints it."""
    t = local(ns, tz)
    return "%s %s %d %d %s %s" % ("Mon Tue Wed Thu Fri Sat Sun".split()[t.weekday()], "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[t.month - 1],
                                  t.day, t.year, t.strftime("%H:%M:%S"), tz)


def to_cbor(x):
    def head(mt, n):
        for ai, w in ((24, 1), (25, 2), (26, 4), (27, 8)):
            if n < 24:
                return bytes([mt << 5 | n])
            if n < 1 << 8 * w:
                return bytes([mt << 5 | ai]) + n.to_bytes(w, "big")
        # a bignum
        return b"\xc2" + to_cbor(n.to_bytes((n.bit_length() + 7) // 8, "big")) if mt == 0 else b"\xc3" + to_cbor(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    if isinstance(x, int):
        return head(0, x) if x >= 0 else head(1, -1 - x)
    if isinstance(x, bytes):
        return head(2, len(x)) + x
    if isinstance(x, str):
        return head(3, len(x.encode())) + x.encode()
    if isinstance(x, dict):
        return head(5, len(x)) + b"".join(to_cbor(k) + to_cbor(v) for k, v in x.items())
    return head(4, len(x)) + b"".join(map(to_cbor, x))


def snapshot_parts(data):
    return cbor_all(data[9:])


def decode_snapshot(data, want=None):
    try:
        if data[:8] != b"MKBAKSNP" or data[8:9] not in (b"1", b"2"):
            raise Bad("snapshot magic")
        raw = data[9:]
        if want is not None and ident(raw) != want:
            raise Bad("snapshot id")
        d = cbor_all(raw)
        if data[8:9] == b"1":
            d["time"], d["tz"] = when(d["time"])
        return {"time": d["time"], "tz": d["tz"], "author": d["author"],
                "tags": sorted(d.get("tags", [])), "paths": sorted(d["paths"]), "tree": b32(d["tree"]),
                "id": ident(raw)}
    except Bad:
        raise
    except Exception as e:
        raise Bad("snapshot: %r" % e)


def decode_tree(data):
    """-> {name: node}; node = {k, chunks|tree|target, mode, size, uid, gid, atime, mtime}"""
    d = cbor_all(data)
    out = {}
    for name, n in d.items():
        m = n["metadata"]
        o = {"mode": m["mode"], "size": m.get("size"), "uid": m["uid"], "gid": m["gid"],
             "atime": m["atime"], "mtime": m["mtime"]}
        if "chunks" in n:
            o["k"] = "f"
            o["chunks"] = [b32(x) for x in n["chunks"]]
        elif "tree" in n:
            o["k"] = "d"
            o["tree"] = b32(n["tree"])
        else:
            o["k"] = "l"
            o["target"] = n["symlink"]
        out[name] = o
    return out
