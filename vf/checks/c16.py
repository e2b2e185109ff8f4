"""C16 Streaming needs memory for a chunk, not for the object."""
import gc
import hashlib
import os
import struct
import tracemalloc
import zlib

from hypothesis import strategies as st

from .. import ref
from ..engine import HarnessError, Section, require

RULE = ("a case is an operation (storing, reading in pieces, copying, packing, querying) with a kind of data, chunk or piece size and representation, measured "
        "for an object of at least 4 pieces and one of at least 6 pieces (and 3 MiB) more; all are non-trivial")
ASSUMPTIONS = ["tracemalloc sees all allocations that matter (python objects; memory maps are not counted)", "zlib is reached through zlib.decompressobj / zlib.decompress"]

MIB = 1 << 20
BLOCK = {}


def block(kind):
    if kind not in BLOCK:
        BLOCK[kind] = ref.content([kind, MIB, 7]) if kind != "zero" else bytes(MIB)
    return BLOCK[kind]


class Gen:
    """n bytes made of repetitions of a block; a source which holds nothing"""
    def __init__(self, kind, n):
        self.b, self.n, self.pos, self.most, self.bad = block(kind), n, 0, 0, None

    def read(self, n=-1):
        if n is None or n < 0:
            self.bad = n
            n = self.n - self.pos
        self.most = max(self.most, n)
        n = min(n, self.n - self.pos)
        o = self.pos % MIB
        self.pos += n
        if o + n <= MIB:
            return self.b[o:o + n]
        out = [self.b[o:]]
        n -= MIB - o
        while n > 0:
            out.append(self.b[:n])
            n -= min(n, MIB)
        return b"".join(out)


def sha_of(kind, n):
    h = hashlib.sha1(b"blob %d\0" % n)
    b = block(kind)
    for o in range(0, n, MIB):
        h.update(b[:min(MIB, n - o)])
    return h.digest()


def peak(fn):
    """-> bytes allocated at most by fn beyond what was there before"""
    gc.collect()
    gc.disable()
    tracemalloc.start()
    try:
        b = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        fn()
        return tracemalloc.get_traced_memory()[1] - b
    finally:
        tracemalloc.stop()
        gc.enable()


class ZCount:
    """counts what goes into and out of decompressors"""
    def __init__(self):
        self.fed = self.got = 0

    def __enter__(self):
        self.orig, self.orig2 = zlib.decompressobj, zlib.decompress
        me, orig, orig2 = self, self.orig, self.orig2

        class D:
            def __init__(self, *a, **k):
                self._d = orig(*a, **k)

            def decompress(self, data, *a, **k):
                me.fed += len(data)
                r = self._d.decompress(data, *a, **k)
                me.got += len(r)
                return r

            def flush(self, *a):
                r = self._d.flush(*a)
                me.got += len(r)
                return r

            def __getattr__(self, n):
                if n == "_d":
                    raise AttributeError(n)
                return getattr(self._d, n)

        def dec(data, *a, **k):
            me.fed += len(data)
            r = orig2(data, *a, **k)
            me.got += len(r)
            return r
        zlib.decompressobj, zlib.decompress = D, dec
        return self

    def __exit__(self, *a):
        zlib.decompressobj, zlib.decompress = self.orig, self.orig2


def write_z(f, kind, n, level, head=b""):
    """compressed data straight to a file"""
    z = zlib.compressobj(level)
    f.write(z.compress(head))
    b = block(kind)
    for o in range(0, n, MIB):
        f.write(z.compress(b[:min(MIB, n - o)]))
    f.write(z.flush())


def make_loose(root, kind, n, level):
    sha = sha_of(kind, n)
    h = sha.hex()
    os.makedirs(os.path.join(root, h[:2]), exist_ok=True)
    with open(os.path.join(root, h[:2], h[2:]), "wb") as f:
        write_z(f, kind, n, level, b"blob %d\0" % n)
    return sha


def make_packed(root, kind, n, level):
    d = os.path.join(root, "pack")
    os.makedirs(d, exist_ok=True)
    sha = sha_of(kind, n)
    p = os.path.join(d, "pack-%s" % sha.hex())
    with open(p + ".pack", "w+b") as f:
        f.write(b"PACK" + struct.pack(">LL", 2, 1) + ref.entry_header(3, n))
        write_z(f, kind, n, level)
        f.seek(0)
        h = hashlib.sha1()
        while True:
            d = f.read(MIB)
            if not d:
                break
            h.update(d)
        f.seek(12)
        crc = 0
        while True:
            d = f.read(MIB)
            if not d:
                break
            crc = zlib.crc32(d, crc)
        f.write(h.digest())
    with open(p + ".idx", "wb") as f:
        f.write(ref.idx_v2([(sha, crc & 0xffffffff, 12)], h.digest()))
    return sha


def make_delta(root, kind, n, level):
    """an object stored as delta which inserts all of its content"""
    d = os.path.join(root, "pack")
    os.makedirs(d, exist_ok=True)
    sha = sha_of(kind, n)
    small = b"base of the delta"
    bsha = ref.obj_id(b"blob", small)
    b = block(kind)
    data = (b * (n // MIB + 1))[:n]
    delta = ref.delta_bytes(len(small), n, [("i", data[o:o + 127]) for o in range(0, n, 127)])
    p = os.path.join(d, "pack-%s" % sha.hex())
    parts = [b"PACK" + struct.pack(">LL", 2, 2), ref.entry_header(3, len(small)) + ref.zenc(small, None),
             ref.entry_header(ref.REF, len(delta)) + bsha + zlib.compress(delta, level)]
    pack = b"".join(parts)
    pack += hashlib.sha1(pack).digest()
    with open(p + ".pack", "wb") as f:
        f.write(pack)
    items = [(bsha, zlib.crc32(parts[1]), 12), (sha, zlib.crc32(parts[2]), 12 + len(parts[1]))]
    with open(p + ".idx", "wb") as f:
        f.write(ref.idx_v2(items, pack[-20:]))
    return sha


OPS = ["store", "store", "raw", "redirect", "read", "read", "copy", "db copy", "write_pack", "create", "verify", "crc", "walk", "partial", "partial", "info", "info", "delta info"]


def strategy():
    return st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "kind": st.sampled_from(["rand", "text", "zero"]), "level": st.sampled_from([0, 1, 6]), "where": st.sampled_from(["loose", "packed"]),
        "chunk": st.sampled_from([None, 4096, 65536, 500000, 1 << 20]), "piece": st.sampled_from([1000, 4096, 8192, 65536, 300000, 1 << 20]), "odd": st.integers(0, 1000),
        "lead": st.sampled_from([0, 0, 100, 100000])})


def body(case, ctx):
    from gitdb.base import IStream
    from gitdb.db import GitDB, LooseObjectDB, PackedDB
    from gitdb.fun import stream_copy
    from gitdb.pack import PackEntity, PackFile
    from gitdb.stream import Sha1Writer, NullStream
    op, kind, level = case["op"], case["kind"], case["level"]
    default = 4096000
    chunk = case["chunk"] or default
    piece = case["piece"]
    if op in ("write_pack", "create", "verify", "walk", "crc"):
        chunk = default
        level = min(level, 1)
        if op != "create" and op != "write_pack" and kind == "text":
            kind = "rand"
    unit = chunk if op in ("store", "raw", "redirect", "write_pack", "create", "verify", "walk", "db copy", "crc") else piece
    base = max(4 * unit, 700_000) + case["odd"]
    sizes = (base, base + max(6 * unit, 3 * MIB))
    if op in ("partial", "info", "delta info"):
        sizes = (max(base, 3 * MIB), 4 * max(base, 3 * MIB))
    result = []
    asked = []
    for k, n in enumerate(sizes):
        root = ref.make_gitdir(os.path.join(ctx.dir, "r%d" % k))
        src = Gen(kind, n)
        if op in ("store", "redirect"):
            db = LooseObjectDB(root)
            if case["chunk"]:
                db.stream_chunk_size = chunk
            if op == "redirect":
                db.set_ostream(Sha1Writer())
            sha = sha_of(kind, n)
            got = []
            m = peak(lambda: got.append(db.store(IStream("blob", n, src)).binsha))
            require(got[0] == sha, "stored under another id")
            require(src.pos == n, "%d bytes taken of %d", src.pos, n)
        elif op == "raw":
            db = LooseObjectDB(root)
            if case["chunk"]:
                db.stream_chunk_size = chunk
            # content of the file doesn't matter to a direct copy
            src = Gen("rand", n)
            m = peak(lambda: db.store(IStream("blob", n, src, b"\x12" * 20)))
            require(src.pos == n, "%d bytes taken of %d", src.pos, n)
        elif op in ("write_pack", "create"):
            from gitdb.base import OStream
            sha = sha_of(kind, n)
            small = b"small"
            import io
            objs = [OStream(ref.obj_id(b"blob", small), b"blob", 5, io.BytesIO(small)), OStream(sha, b"blob", n, src)]
            if op == "write_pack":
                nul = NullStream()
                m = peak(lambda: PackEntity.write_pack(objs, nul.write, nul.write, zlib_compression=min(level, 1)))
            else:
                d = os.path.join(root, "pack")
                m = peak(lambda: PackEntity.create(objs, d, zlib_compression=min(level, 1)))
            require(src.pos == n, "%d bytes taken of %d", src.pos, n)
        else:
            sha = (make_delta if op == "delta info" else make_loose if case["where"] == "loose" and op not in ("verify", "walk", "crc") else make_packed)(root, kind, n, level if n < 8 * MIB else min(level, 1))
            db = GitDB(root)
            db.has_object(bytes(20))
            want = block(kind)
            if op == "read":
                def fn():
                    s = db.stream(sha)
                    pos = 0
                    while True:
                        d = s.read(piece)
                        if len(d) != min(piece, n - pos):
                            require(False, "read(%d) at %d of %d returned %d bytes", piece, pos, n, len(d))
                        if not d:
                            break
                        pos += len(d)
                m = peak(fn)
            elif op == "copy":
                nul = NullStream()
                got = []

                def fn():
                    s = db.stream(sha)
                    got.append(stream_copy(s.read, nul.write, s.size, piece))
                m = peak(fn)
                require(got[0] == n, "copied %d bytes of %d", got[0], n)
            elif op == "db copy":
                dst = LooseObjectDB(ref.make_gitdir(os.path.join(ctx.dir, "d%d" % k)))
                if case["chunk"]:
                    dst.stream_chunk_size = chunk
                got = []

                def fn():
                    s = db.stream(sha)
                    got.append(dst.store(IStream(s.type, s.size, s)).binsha)
                m = peak(fn)
                require(got[0] == sha, "stored under another id")
            elif op in ("verify", "crc"):
                ent = PackEntity(os.path.join(root, "pack", "pack-%s.pack" % sha.hex()))
                ent.index().size(), ent.pack().size()
                got = []
                m = peak(lambda: got.append(ent.is_valid_stream(sha, use_crc=op == "crc")))
                require(got[0] is True, "not valid")
            elif op == "walk":
                p = PackFile(os.path.join(root, "pack", "pack-%s.pack" % sha.hex()))
                p.size()
                m = peak(lambda: [None for _ in p.stream_iter()])
            elif op in ("info", "delta info"):
                got = []
                with ZCount() as z:
                    m = peak(lambda: got.append(db.info(sha)))
                require(got[0].size == n and got[0].type == b"blob", "info")
                asked.append((z.fed, z.got))
            else:
                got = []
                lead = case["lead"]
                tail = want[lead:] + want[:lead + 1]

                def fn():
                    s = db.stream(sha)
                    d = s.read(case["lead"]) if case["lead"] else b""
                    e = s.read(piece)
                    got.append((len(d), len(e), d == want[:len(d)] and e == (tail if lead else want)[:len(e)]))
                with ZCount() as z:
                    m = peak(fn)
                require(got[0] == (case["lead"], piece, True), "reading %d + %d bytes gave %r", case["lead"], piece, got[0])
                asked.append((z.fed, z.got))
        if op in ("store", "raw", "redirect", "write_pack", "create"):
            require(src.bad is None, "the source was asked for everything: read(%r)", src.bad)
            require(src.most <= 2 * chunk, "the source was asked for %d bytes at once, the chunk is %d", src.most, chunk)
        result.append(m)
    ctx.label("%s %s" % (op, kind))
    ctx.nontrivial()
    grow = 3 * (unit + case["lead"]) + 300_000
    require(result[1] <= result[0] + grow, "%s: %d bytes of memory for an object of %d bytes, but %d for one of %d (pieces of %d bytes)", op, result[0], sizes[0], result[1], sizes[1], unit)
    if asked:
        unit = piece + case["lead"] if op == "partial" else 0
        for i in (0, 1):
            require(asked[i][0] <= 8 * unit + 200_000, "%s of %d bytes: %d bytes were decompressed (object of %d)", op, unit, asked[i][0], sizes[i])
            require(asked[i][1] <= 4 * unit + 200_000, "%s of %d bytes: %d bytes came out of decompression (object of %d)", op, unit, asked[i][1], sizes[i])


def sections():
    return [Section("memory", body, strategy, quick=100, thorough=4000)]
