"""Reference library. Shares no code with gitdb."""
import hashlib
import os
import random
import struct
import subprocess
import zlib
from binascii import crc32

from .engine import HarnessError

TYPES = [b"commit", b"tree", b"blob", b"tag"]
TYPE_ID = {b"commit": 1, b"tree": 2, b"blob": 3, b"tag": 4}
ID_TYPE = {v: k for k, v in TYPE_ID.items()}
OFS, REF = 6, 7


def obj_id(typ, data):
    h = hashlib.sha1(b"%s %d\0" % (typ, len(data)))
    h.update(data)
    return h.digest()


# ---------------------------------------------------------------- contents

_WORDS = [b"the ", b"object ", b"\n", b"tree ", b"0000", b"commit", b" a", b"e", b"\t\t", b"def f(x):\n    return x\n",
          b"author ", b"1234567890", b"\xc3\xa9", b"\0", b"--", b"gitdb"]
_cache = {}


def content(desc):
    """bytes, or [kind, n, seed] -> bytes (a pure function of the descriptor)"""
    if isinstance(desc, (bytes, bytearray)):
        return bytes(desc)
    kind, n, seed = desc
    key = (kind, n, seed)
    if key in _cache:
        return _cache[key]
    r = random.Random("%s/%d" % (kind, seed))
    if kind == "zero":
        d = bytes([seed & 0xff]) * n
    elif kind == "rep":
        p = r.randbytes(1 + seed % 37)
        d = (p * (n // len(p) + 1))[:n]
    elif kind == "rand":
        d = r.randbytes(n)
    elif kind == "text":
        out, l = [], 0
        while l < n:
            w = _WORDS[r.getrandbits(4)]
            out.append(w)
            l += len(w)
            if l > 200000:          # long texts repeat, that is cheap and still text
                b = b"".join(out)
                out = [(b * (n // len(b) + 1))]
                l = len(out[0])
        d = b"".join(out)[:n]
    elif kind == "mix":
        out, l = [], 0
        while l < n:
            k = r.choice((7, 50, 300, 2000, 9000, 70000))
            b = r.randbytes(k) if r.getrandbits(1) else bytes([r.getrandbits(8)]) * k
            out.append(b)
            l += k
        d = b"".join(out)[:n]
    else:
        raise HarnessError("unknown content kind %r" % (kind,))
    if n < (1 << 20):
        if len(_cache) > 300:
            _cache.clear()
        _cache[key] = d
    return d


# ---------------------------------------------------------------- zlib encodings

def zenc(data, z=None):
    """z: None (defaults) or {"l": level, "w": wbits, "m": memlevel, "s": strategy, "f": [[permille, mode], ...]}"""
    if z is None:
        return zlib.compress(data, 1)
    co = zlib.compressobj(z.get("l", 6), zlib.DEFLATED, z.get("w", 15), z.get("m", 8), z.get("s", 0))
    out = []
    pos = 0
    for pm, mode in sorted(z.get("f", ())):
        cut = len(data) * pm // 1000
        if cut > pos:
            out.append(co.compress(data[pos:cut]))
            pos = cut
        out.append(co.flush((zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH, zlib.Z_BLOCK)[mode % 4]))
    out.append(co.compress(data[pos:]))
    out.append(co.flush())
    enc = b"".join(out)
    return enc


# ---------------------------------------------------------------- numbers and headers

def varint_le(n, pad=0):
    """little endian base 128 (delta header sizes); pad adds redundant zero digits"""
    out = bytearray()
    while True:
        c = n & 0x7f
        n >>= 7
        if n or pad:
            out.append(c | 0x80)
            if not n:
                for _ in range(pad - 1):
                    out.append(0x80)
                out.append(0)
                return bytes(out)
        else:
            out.append(c)
            return bytes(out)


def entry_header(type_id, size):
    out = bytearray()
    c = (type_id << 4) | (size & 15)
    size >>= 4
    while size:
        out.append(c | 0x80)
        c = size & 0x7f
        size >>= 7
    out.append(c)
    return bytes(out)


def parse_entry_header(b, o=0):
    c = b[o]
    o += 1
    t, size, sh = (c >> 4) & 7, c & 15, 4
    while c & 0x80:
        c = b[o]
        o += 1
        size |= (c & 0x7f) << sh
        sh += 7
    return t, size, o


def ofs_enc(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        n -= 1
        out.append((n & 0x7f) | 0x80)
        n >>= 7
    return bytes(reversed(out))


# ---------------------------------------------------------------- deltas

def copy_op(off, size, enc=0):
    """one copy instruction. enc: bits 0..6 force the emission of a (zero) byte that could be omitted;
    bit 7 writes a size of 0x10000 explicitly"""
    cmd = 0x80
    out = bytearray()
    for i in range(4):
        b = (off >> (8 * i)) & 0xff
        if b or enc & (1 << i):
            cmd |= 1 << i
            out.append(b)
    sz = size
    if size == 0x10000 and not enc & 0x80:
        sz = 0
    for i in range(3):
        b = (sz >> (8 * i)) & 0xff
        if b or enc & (1 << (4 + i)):
            cmd |= 0x10 << i
            out.append(b)
    return bytes([cmd]) + bytes(out)


def delta_bytes(src_size, dst_size, instr, pad=(0, 0)):
    """instr: list of ("c", off, size, enc) / ("i", data)"""
    out = [varint_le(src_size, pad[0]), varint_le(dst_size, pad[1])]
    for op in instr:
        if op[0] == "c":
            out.append(copy_op(op[1], op[2], op[3] if len(op) > 3 else 0))
        else:
            assert 0 < len(op[1]) < 128
            out.append(bytes([len(op[1])]) + op[1])
    return b"".join(out)


def delta_result(base, instr):
    out = []
    for op in instr:
        if op[0] == "c":
            assert op[1] + op[2] <= len(base) and op[2] > 0
            out.append(base[op[1]:op[1] + op[2]])
        else:
            out.append(op[1])
    return b"".join(out)


def make_instr(base, ops):
    """turn generated numbers into instructions that are legal for this base.
    ops: list of ["c", a, b, enc] (a, b arbitrary ints) / ["i", bytes or [kind,n,seed]] / ["z"] = copy of 0x10000 if possible"""
    instr = []
    n = len(base)
    for op in ops:
        if op[0] == "i":
            d = content(op[1])
            for i in range(0, len(d), 127):
                instr.append(("i", d[i:i + 127]))
        elif n == 0:
            instr.append(("i", b"e"))
        elif op[0] == "z":
            if n >= 0x10000:
                instr.append(("c", op[1] % (n - 0x10000 + 1), 0x10000, op[2]))
            else:
                instr.append(("c", 0, n, op[2]))
        elif op[0] == "t":      # tail copy: ends exactly at the end of the base
            size = 1 + op[1] % min(n, 0xffffff)
            instr.append(("c", n - size, size, op[2]))
        else:
            off = op[1] % n
            size = 1 + op[2] % min(n - off, 0xffffff)
            instr.append(("c", off, size, op[3]))
    return instr


def apply_delta(base, delta):
    """independent interpreter; raises ValueError for every malformed delta"""
    def num(i):
        v = s = 0
        while True:
            if i >= len(delta):
                raise ValueError("size cut short")
            c = delta[i]
            i += 1
            v |= (c & 0x7f) << s
            s += 7
            if not c & 0x80:
                return v, i
    src, i = num(0)
    dst, i = num(i)
    if src != len(base):
        raise ValueError("source size")
    out = bytearray()
    while i < len(delta):
        c = delta[i]
        i += 1
        if c & 0x80:
            off = size = 0
            for k in range(4):
                if c & (1 << k):
                    if i >= len(delta):
                        raise ValueError("copy cut short")
                    off |= delta[i] << (8 * k)
                    i += 1
            for k in range(3):
                if c & (0x10 << k):
                    if i >= len(delta):
                        raise ValueError("copy cut short")
                    size |= delta[i] << (8 * k)
                    i += 1
            if size == 0:
                size = 0x10000
            if off + size > len(base):
                raise ValueError("copy outside of the source")
            out += base[off:off + size]
        elif c:
            if i + c > len(delta):
                raise ValueError("insert cut short")
            out += delta[i:i + c]
            i += c
        else:
            raise ValueError("reserved instruction")
    if len(out) != dst:
        raise ValueError("result size")
    return bytes(out)


# ---------------------------------------------------------------- packs

class PackEnt:
    __slots__ = ("kind", "data", "raw", "size", "offset", "end", "sha", "type", "content", "hdr", "delta_info", "data_offset", "crc")


def pack_bytes(ents, version=2):
    """ents: list of PackEnt with kind (1..4, 6, 7), data (uncompressed payload), raw (compressed), and for kind 6
    delta_info = base entry (PackEnt), for kind 7 delta_info = base sha. Sets offsets. Returns pack file bytes."""
    out = [b"PACK" + struct.pack(">LL", version, len(ents))]
    pos = 12
    for e in ents:
        e.offset = pos
        hdr = entry_header(e.kind, len(e.data))
        if e.kind == OFS:
            hdr += ofs_enc(pos - e.delta_info.offset)
        elif e.kind == REF:
            hdr += e.delta_info
        e.hdr = hdr
        e.data_offset = pos + len(hdr)
        out.append(hdr)
        out.append(e.raw)
        pos += len(hdr) + len(e.raw)
        e.end = pos
        e.crc = crc32(e.raw, crc32(hdr)) & 0xffffffff
    body = b"".join(out)
    return body + hashlib.sha1(body).digest()


def _fanout(shas):
    cnt = [0] * 256
    for s in shas:
        cnt[s[0]] += 1
    out, t = [], 0
    for c in cnt:
        t += c
        out.append(struct.pack(">L", t))
    return b"".join(out)


def idx_v1(items, packsha):
    """items: (sha, crc, offset)"""
    items = sorted(items, key=lambda t: t[0])
    b = _fanout(t[0] for t in items) + b"".join(struct.pack(">L", t[2]) + t[0] for t in items) + packsha
    return b + hashlib.sha1(b).digest()


def idx_v2(items, packsha, threshold=0x7fffffff, force=()):
    """threshold: offsets above it go to the 64-bit table (git: 0x7fffffff); force: shas which are put there anyway"""
    items = sorted(items, key=lambda t: t[0])
    o32, o64 = [], []
    for t in items:
        if t[2] > threshold or t[0] in force:
            o32.append(struct.pack(">L", 0x80000000 | len(o64)))
            o64.append(struct.pack(">Q", t[2]))
        else:
            o32.append(struct.pack(">L", t[2]))
    b = (b"\377tOc" + struct.pack(">L", 2) + _fanout(t[0] for t in items) + b"".join(t[0] for t in items) +
         b"".join(struct.pack(">L", t[1]) for t in items) + b"".join(o32) + b"".join(o64) + packsha)
    return b + hashlib.sha1(b).digest()


def loose_bytes(typ, data, z=None):
    return zenc(b"%s %d\0" % (typ, len(data)) + data, z)


def write_loose(root, sha, raw):
    h = sha.hex()
    d = os.path.join(root, h[:2])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, h[2:]), "wb") as f:
        f.write(raw)


def parse_loose(raw):
    """-> (type, content); raises ValueError unless the file is exactly one complete object"""
    d = zlib.decompressobj()
    try:
        b = d.decompress(raw)
    except zlib.error as e:
        raise ValueError("zlib: %s" % e)
    if not d.eof or d.unused_data:
        raise ValueError("incomplete or trailing data")
    z = b.index(b"\0")
    typ, size = b[:z].split(b" ")
    if int(size) != len(b) - z - 1:
        raise ValueError("size")
    return typ, b[z + 1:]


# ---------------------------------------------------------------- built packs from descriptions

class BuiltPack:
    """objs: dict sha -> (type, content); ents in file order; pack/idx bytes"""


def build_pack(desc, extern=None):
    """desc: {"objs": [...], "order": [ints], "idx": 1|2|3}
    objs[i]: {"t": 0..3, "c": content desc, "z": zdesc}                      a whole object
             {"b": int, "ops": [...], "r": 0|1 (prefer ofs|ref), "z":, "pad": [a, b]}   delta against an earlier object
    order: numbers which induce the file order; duplicates (same id) are dropped"""
    objs = []           # (sha, type, content, spec, base_index or None, delta bytes)
    bysha = {}
    for spec in desc["objs"]:
        if "b" in spec and objs:
            bi = spec["b"] % len(objs)
            base = objs[bi][2]
            instr = make_instr(base, spec["ops"])
            res = delta_result(base, instr)
            d = delta_bytes(len(base), len(res), instr, spec.get("pad", (0, 0)))
            typ = objs[bi][1]
            sha = obj_id(typ, res)
            if sha in bysha:
                continue
            bysha[sha] = len(objs)
            objs.append((sha, typ, res, spec, bi, d))
        else:
            c = content(spec.get("c", b""))
            typ = TYPES[spec.get("t", 2) % 4]
            sha = obj_id(typ, c)
            if sha in bysha:
                continue
            bysha[sha] = len(objs)
            objs.append((sha, typ, c, spec, None, None))
    n = len(objs)
    order = desc.get("order") or []
    keys = [(order[i] if i < len(order) else i * 7919 % 1000, i) for i in range(n)]
    perm = [i for _, i in sorted(keys)]
    pos = {i: p for p, i in enumerate(perm)}
    ents = [None] * n
    for i in range(n):
        ents[i] = PackEnt()
    for i, (sha, typ, c, spec, bi, d) in enumerate(objs):
        e = ents[i]
        e.sha, e.type, e.content = sha, typ, c
        if bi is None:
            e.kind, e.data, e.delta_info = TYPE_ID[typ], c, None
        else:
            e.data = d
            if spec.get("r", 0) == 0 and pos[bi] < pos[i]:
                e.kind, e.delta_info = OFS, ents[bi]
            else:
                e.kind, e.delta_info = REF, objs[bi][0]
        e.raw = zenc(e.data, spec.get("z"))
    bp = BuiltPack()
    bp.ents = [ents[i] for i in perm]
    bp.pack = pack_bytes(bp.ents)
    bp.packsha = bp.pack[-20:]
    items = [(e.sha, e.crc, e.offset) for e in bp.ents]
    v = desc.get("idx", 2)
    bp.version = 1 if v == 1 else 2
    if v == 1:
        bp.idx = idx_v1(items, bp.packsha)
    elif v == 3:
        bp.idx = idx_v2(items, bp.packsha, threshold=desc.get("thr", 0))
    else:
        bp.idx = idx_v2(items, bp.packsha)
    bp.objs = {o[0]: (o[1], o[2]) for o in objs}
    bp.depth = {}
    for i, o in enumerate(objs):
        bp.depth[o[0]] = 0 if o[4] is None else bp.depth[objs[o[4]][0]] + 1
    bp.base = {o[0]: (objs[o[4]][0] if o[4] is not None else None) for o in objs}
    return bp


def write_pack_files(bp, directory, name=None):
    os.makedirs(directory, exist_ok=True)
    base = os.path.join(directory, "pack-%s" % (name or bp.packsha.hex()))
    with open(base + ".pack", "wb") as f:
        f.write(bp.pack)
    with open(base + ".idx", "wb") as f:
        f.write(bp.idx)
    return base + ".pack"


# ---------------------------------------------------------------- git

GIT = "/usr/bin/git"


def git_env(objdir=None, gitdir=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/"), "LC_ALL": "C",
         "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": os.devnull, "GIT_AUTHOR_DATE": "1 +0000",
         "GIT_COMMITTER_DATE": "1 +0000"}
    if objdir:
        e["GIT_OBJECT_DIRECTORY"] = objdir
    if gitdir:
        e["GIT_DIR"] = gitdir
    return e


def make_gitdir(path):
    """a minimal repository; returns the objects directory"""
    os.makedirs(os.path.join(path, "objects", "pack"), exist_ok=True)
    os.makedirs(os.path.join(path, "objects", "info"), exist_ok=True)
    os.makedirs(os.path.join(path, "refs"), exist_ok=True)
    with open(os.path.join(path, "HEAD"), "w") as f:
        f.write("ref: refs/heads/master\n")
    return os.path.join(path, "objects")


def git(args, gitdir=None, objdir=None, input=None, check=True, cwd=None):
    try:
        p = subprocess.run([GIT] + args, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=git_env(objdir, gitdir), cwd=cwd or "/")
    except OSError as e:
        raise HarnessError("git: %r" % e)
    if check and p.returncode:
        raise HarnessError("git %s: %s" % (" ".join(args), p.stderr.decode("utf8", "replace")[:500]))
    return p


def git_cat(gitdir, shas):
    """-> list of (type, content) or None, as git reads them from the repository"""
    shas = list(shas)
    p = git(["cat-file", "--batch"], gitdir=gitdir, input=b"".join(s.hex().encode() + b"\n" for s in shas), check=False)
    out, o = [], 0
    b = p.stdout
    for s in shas:
        nl = b.find(b"\n", o)
        if nl < 0:
            out.append(None)
            continue
        f = b[o:nl].split(b" ")
        o = nl + 1
        if len(f) == 3:
            n = int(f[2])
            out.append((f[1], b[o:o + n]))
            o += n + 1
        else:
            out.append(None)
    return out
