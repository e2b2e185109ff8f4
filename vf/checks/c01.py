"""C01 Storing is content addressed and round-trips, and git agrees."""
import os
import zlib
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, Violation, require, short

RULE = ("a case is a history of stores (type, content, behaviour of the source stream, chunk size, output redirection) into one database; "
        "non-trivial = at least one object was stored from a source with short reads, surplus or early end, or stored twice, or redirected, or one of the enumerated sizes was")
ASSUMPTIONS = ["git 2.43 and hashlib are right", "the source returns bytes, an empty result only at its end"]


class Source:
    """hands out data in pieces as told; knows what was taken"""
    def __init__(self, data, pieces):
        self.data, self.pieces, self.pos, self.calls, self.asked = data, pieces, 0, 0, []

    def read(self, n=-1):
        self.asked.append(n)
        left = len(self.data) - self.pos
        k = left if n is None or n < 0 else min(n, left)
        if self.pieces:
            k = min(k, self.pieces[self.calls % len(self.pieces)]) if k else 0
        self.calls += 1
        d = self.data[self.pos:self.pos + k]
        self.pos += k
        return d


def strategy(maxn, maxops=6, chunks=(1, 2, 7, 100, 511, 512, 4096, 100000)):
    pieces = st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 3, 7, 100, 511, 4096, 70000]), min_size=1, max_size=4))
    op = st.fixed_dictionaries({
        "k": st.sampled_from(["store", "store", "store", "again", "gone", "early", "raw", "redirect", "redirect-raw", "foreign"]), "t": gen.types(), "c": gen.contents(maxn), "z": gen.zdescs(),
        "pieces": pieces, "surplus": st.sampled_from([0, 0, 1, 100, 5000]), "cut": st.integers(1, 1000), "i": st.integers(0, 10), "str": st.booleans(),
        "w": st.integers(0, 2), "chunk": st.one_of(st.none(), st.sampled_from(list(chunks)))})

    def s():
        return st.fixed_dictionaries({"db": st.sampled_from(["loose", "git"]), "ops": gen.histories(op, 1, maxops), "fresh": st.booleans(), "fd0": st.sampled_from([False, False, False, True])})
    return s


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            s = os.stat(p)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = (s.st_ino, s.st_mtime_ns, s.st_mode, h.read())
    return out


def check_object(db, sha, typ, c, what):
    require(db.has_object(sha) is True and (sha in db), "%s: %s is not present", what, sha.hex())
    i = db.info(sha)
    require((i.binsha, i.type, i.size) == (sha, typ, len(c)), "%s: info is %r instead of %s, %d", what, tuple(i), typ, len(c))
    require(i.type_id == ref.TYPE_ID[typ] and bytes(i.hexsha) == sha.hex().encode(), "%s: type id %r, hexsha %r", what, i.type_id, i.hexsha)
    s = db.stream(sha)
    require((s.binsha, s.type, s.size) == (sha, typ, len(c)), "%s: stream is %r instead of %s, %d", what, tuple(s)[:3], typ, len(c))
    d = s.read()
    require(bytes(d) == c, "%s: content of %s differs (%d bytes, expected %d)", what, sha.hex(), len(d), len(c))


def body(case, ctx):
    from gitdb.base import IStream
    from gitdb.db import LooseObjectDB, GitDB
    from gitdb.stream import Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter
    gd = os.path.join(ctx.dir, "r")
    root = ref.make_gitdir(gd)
    make = LooseObjectDB if case["db"] == "loose" else GitDB
    db = make(root)
    model, files = {}, {}           # sha -> (type, content); sha -> exact bytes if known

    def store(ist):
        restore = ctx.free_fd0() if case.get("fd0") else None
        try:
            r = db.store(ist)
        finally:
            if restore:
                restore()
        require(r is ist, "store returned another object")
        return r.binsha

    for op in case["ops"]:
        k = op["k"]
        typ, c = ref.TYPES[op["t"]], ref.content(op["c"])
        if k in ("again", "gone") and model:
            typ, c = model[sorted(model)[op["i"] % len(model)]]
        sha = ref.obj_id(typ, c)
        if k == "gone" and sha in model:        # removed by another program in the meantime, and its directory too
            os.remove(os.path.join(root, sha.hex()[:2], sha.hex()[2:]))
            if not os.listdir(os.path.join(root, sha.hex()[:2])):
                os.rmdir(os.path.join(root, sha.hex()[:2]))
            del model[sha]
            files.pop(sha, None)
            db.update_cache(force=True)
            require(db.has_object(sha) is False, "a removed object is present")
        chunk = op["chunk"]
        if chunk is not None and chunk >= len(c) // 400:
            (db if case["db"] == "loose" else db._loose_db if hasattr(db, "_loose_db") else db).stream_chunk_size = chunk
        pieces = [max(p, len(c) // 400) for p in op["pieces"]]
        surplus = ref.content(["rand", op["surplus"], 3])
        before = listing(root)
        tname = typ.decode() if op["str"] else typ
        if k == "early":
            if not c:
                continue
            n = min(op["cut"], len(c))
            src = Source(c[:len(c) - n], pieces)
            present = sha in model
            try:
                store(IStream(tname, len(c), src))
            except Exception:
                pass
            else:
                require(False, "a source of %d bytes was stored as object of %d bytes", len(c) - n, len(c))
            require(listing(root) == before, "a refused object changed files")
            require(db.has_object(sha) is present, "a refused object is present")
            ctx.nontrivial()
        elif k == "raw":
            raw = ref.loose_bytes(typ, c, op["z"])
            got = store(IStream(tname, len(c), Source(raw, pieces), sha))
            require(got == sha, "id %s instead of %s", short(got), sha.hex())
            if sha not in model:
                files[sha] = raw
            model[sha] = (typ, c)
        elif k == "foreign":
            if sha not in model:
                raw = ref.loose_bytes(typ, c, op["z"])
                ref.write_loose(root, sha, raw)
                os.chmod(os.path.join(root, sha.hex()[:2], sha.hex()[2:]), 0o444)       # as git does
                files[sha] = raw
                model[sha] = (typ, c)
                before = listing(root)
            src = Source(c + surplus, pieces)
            got = store(IStream(tname, len(c), src))
            require(got == sha, "id %s instead of %s", short(got), sha.hex())
            require(listing(root) == before, "storing an object which exists changed files")
            ctx.nontrivial()
        elif k == "redirect":
            out = []
            w = [Sha1Writer, lambda: FlexibleSha1Writer(lambda b: out.append(bytes(b))), ZippedStoreShaWriter][op["w"]]()
            prev = db.set_ostream(w)
            require(prev is None and db.ostream() is w, "set_ostream returned %r", prev)
            src = Source(c + surplus, pieces)
            got = store(IStream(tname, len(c), src))
            require(got == sha, "redirected: id %s instead of %s", short(got), sha.hex())
            require(src.pos == len(c), "redirected: %d bytes taken from the source instead of %d", src.pos, len(c))
            require(w.sha(as_hex=False) == sha, "redirected: the writer has another id")
            want = b"%s %d\0" % (typ, len(c)) + c
            if op["w"] == 1:
                require(b"".join(out) == want, "redirected: the writer got other data")
            elif op["w"] == 2:
                w.close()
                w.seek(0)
                require(zlib.decompress(w.getvalue()) == want, "redirected: the writer holds other data")
            require(db.set_ostream(None) is w and db.ostream() is None, "set_ostream(None)")
            require(listing(root) == before, "redirected: files changed")
            require(db.has_object(sha) is (sha in model), "redirected: object is present")
            ctx.nontrivial()
        elif k == "redirect-raw":
            raw = ref.loose_bytes(typ, c, op["z"])
            out = []
            w = FlexibleSha1Writer(lambda b: out.append(bytes(b)))
            db.set_ostream(w)
            got = store(IStream(tname, len(c), Source(raw, pieces), sha))
            db.set_ostream(None)
            require(got == sha, "redirected raw: id %s instead of %s", short(got), sha.hex())
            require(b"".join(out) == raw, "redirected raw: the writer got other data")
            require(listing(root) == before, "redirected raw: files changed")
            require(db.has_object(sha) is (sha in model), "redirected raw: object is present")
            ctx.nontrivial()
        else:
            src = Source(c + surplus, pieces)
            ist = IStream(tname, len(c), src)
            got = store(ist)
            require(got == sha, "id %s instead of %s", short(got), sha.hex())
            require(bytes(ist.hexsha) == sha.hex().encode(), "hexsha %r", ist.hexsha)
            require(src.pos == len(c), "%d bytes taken from the source instead of %d", src.pos, len(c))
            if sha in model:
                require(listing(root) == before, "storing an object which exists changed files")
                ctx.nontrivial()
            ctx.nontrivial(bool(pieces) or bool(surplus))
            model[sha] = (typ, c)
            check_object(db, sha, typ, c, "after storing")
            if case["fresh"]:
                check_object(make(root), sha, typ, c, "fresh database")
        ctx.label(k)
    # on disk
    now = listing(root)
    require(set(now) == {os.path.join(s.hex()[:2], s.hex()[2:]) for s in model}, "files: %s", short(sorted(now), 400))
    for sha, (typ, c) in model.items():
        raw = now[os.path.join(sha.hex()[:2], sha.hex()[2:])][3]
        try:
            got = ref.parse_loose(raw)
        except ValueError as e:
            raise Violation("the file of %s is not a complete object: %s" % (sha.hex(), e))
        require(got == (typ, c), "the file of %s holds another object", sha.hex())
        require(sha not in files or files[sha] == raw, "the file of %s is not what was handed over", sha.hex())
    for what, d in (("open database", db), ("fresh database", make(root)), ("fresh GitDB", GitDB(root))):
        for sha, (typ, c) in model.items():
            check_object(d, sha, typ, c, what)
        require(sorted(bytes(s) for s in d.sha_iter()) == sorted(model), "%s: ids", what)
        require(d.size() == len(model), "%s: size %r instead of %d", what, d.size(), len(model))
    if model:
        shas = sorted(model)
        for sha, o in zip(shas, ref.git_cat(gd, shas)):
            require(o == model[sha], "git finds %s for %s", short(o and (o[0], len(o[1]))), sha.hex())


class Zeros:
    """an endless source of zeros which counts what was taken"""
    block = memoryview(bytes(1 << 22))

    def __init__(self, limit=None):
        self.pos, self.limit = 0, limit

    def read(self, n):
        if self.limit is not None:
            n = min(n, self.limit - self.pos)
        d = self.block[:min(n, len(self.block))]
        self.pos += len(d)
        return d


def huge_body(case, ctx):
    """sizes which don't fit into 31 or 32 bits"""
    import hashlib
    from gitdb.base import IStream
    from gitdb.db import LooseObjectDB
    from gitdb.stream import Sha1Writer
    size, mode = case["size"], case["mode"]
    root = os.path.join(ctx.dir, "o")
    os.mkdir(root)
    h = hashlib.sha1(b"blob %d\0" % size)
    z = Zeros(size)
    while z.pos < size:
        h.update(z.read(1 << 22))
    sha = h.digest()
    db = LooseObjectDB(root)
    src = Zeros()
    if mode == "redirect":
        db.set_ostream(Sha1Writer())
        r = db.store(IStream("blob", size, src))
        require(src.pos == size, "%d bytes taken from the source instead of %d", src.pos, size)
        require(r.binsha == sha, "id %s instead of %s", short(r.binsha), sha.hex())
        require(os.listdir(root) == [], "redirected: files")
    elif mode == "early":
        src = Zeros(size - 1)
        db.set_ostream(Sha1Writer())
        try:
            db.store(IStream("blob", size, src))
        except Exception:
            pass
        else:
            require(False, "a source that ended early was accepted")
    else:
        r = db.store(IStream("blob", size, src))
        require(src.pos == size and r.binsha == sha, "%d bytes taken, id %s instead of %s", src.pos, short(r.binsha), sha.hex())
        i = LooseObjectDB(root).info(sha)
        require((i.type, i.size) == (b"blob", size), "info is %s %r", i.type, i.size)
        s = db.stream(sha)
        h = hashlib.sha1(b"blob %d\0" % size)
        n = 0
        while True:
            d = s.read(1 << 20)
            h.update(d)
            n += len(d)
            if len(d) < 1 << 20:
                break
        require(n == size and h.digest() == sha and len(s.read()) == 0, "%d bytes read back, content %s", n, h.hexdigest())
    ctx.label(mode)
    ctx.nontrivial()


def huge(tier, seed):
    yield {"size": (1 << 31) + 5 + seed % 1000, "mode": "redirect"}
    if tier == "thorough":
        for size in (1 << 31, (1 << 32) + 7):
            for mode in ("redirect", "early", "store"):
                yield {"size": size, "mode": mode}


def size_list(tier):
    out = set(range(0, 140))
    for e in range(8, 24 if tier == "quick" else 26):
        out |= {(1 << e) + d for d in (-1, 0, 1)}
    for n in list(range(1, 2 if tier == "quick" else 7)):
        out |= {4096000 * n + d for d in (-1, 0, 1)}
    for e in range(3, 8):
        out |= {10 ** e - 1, 10 ** e}
    out |= {1024 * 1000, 512 * 1000, 65535, 3 << 20, 5 << 20, 6 << 20, 4096 * 3, 4096 * 5}
    # with the header of the object included
    for e in (9, 12, 13, 15, 16, 20):
        out |= {(1 << e) - k for k in (7, 8, 9, 10, 11, 12, 13, 14)}
    return sorted(out)


def size_enum(tier, seed):
    for i, n in enumerate(size_list(tier)):
        for kind in ("rand", "rep") if tier == "quick" and n < 3000000 else ("rand", "rep", "zero", "text")[:4 if tier == "thorough" else 1]:
            yield {"n": n, "kind": kind, "t": i % 4, "seed": seed % 100}


def size_body(case, ctx):
    """every size near a power of two, a power of ten or a multiple of the chunk size"""
    from gitdb.base import IStream
    from gitdb.db import LooseObjectDB, MemoryDB
    from gitdb.stream import FDCompressedSha1Writer, Sha1Writer
    typ, c = ref.TYPES[case["t"]], ref.content([case["kind"], case["n"], case["seed"]])
    n = len(c)
    sha = ref.obj_id(typ, c)
    root = os.path.join(ctx.dir, "o")
    os.mkdir(root)
    db = LooseObjectDB(root)
    src = BytesIO(c)
    r = db.store(IStream(typ, n, src))
    require(bytes(r.binsha) == sha, "%d bytes: the id is %s", n, short(r.binsha))
    require(src.tell() == n, "%d bytes: %d were taken", n, src.tell())
    with open(os.path.join(root, sha.hex()[:2], sha.hex()[2:]), "rb") as f:
        require(ref.parse_loose(f.read()) == (typ, c), "%d bytes: the file holds something else", n)
    m = MemoryDB()
    require(bytes(m.store(IStream(typ, n, BytesIO(c))).binsha) == sha, "%d bytes: another id in memory", n)
    w = LooseObjectDB(root)
    w.set_ostream(Sha1Writer())
    require(bytes(w.store(IStream(typ, n, BytesIO(c))).binsha) == sha, "%d bytes: another id if redirected", n)
    # what is written as one piece
    path = os.path.join(ctx.dir, "one")
    x = FDCompressedSha1Writer(os.open(path, os.O_WRONLY | os.O_CREAT))
    x.write(b"%s %d\0" % (typ, n))
    x.write(c)
    x.close()
    require(x.sha() == sha, "%d bytes written as one piece: another id", n)
    with open(path, "rb") as f:
        require(ref.parse_loose(f.read()) == (typ, c), "%d bytes written as one piece: the file holds something else", n)
    for what, d in (("file", LooseObjectDB(root)), ("memory", m)):
        i = d.info(sha)
        require((i.type, i.size) == (typ, n), "%s: %d bytes: info is %s %r", what, n, i.type, i.size)
        require(bytes(d.stream(sha).read()) == c, "%s: %d bytes: read differently", what, n)
        s = d.stream(sha)
        step = max(1, n // 3)
        got = []
        while sum(map(len, got)) < n:
            p = bytes(s.read(step))
            require(len(p) > 0, "%s: %d bytes: end after %d", what, n, sum(map(len, got)))
            got.append(p)
        require(b"".join(got) == c and s.read(7) == b"", "%s: %d bytes: read differently in pieces", what, n)
    ctx.nontrivial(n > 0)


def sections():
    return [Section("sizes", size_body, enum=size_enum),
            Section("huge", huge_body, enum=huge, shards=4),
            Section("histories", body, strategy(3000), quick=2400, thorough=60000),
            Section("larger", body, strategy(300000, 4), quick=320, thorough=10000),
            Section("large", body, strategy(8400000, 2, (512, 65536, 4096000, 5000000)), quick=40, thorough=1200)]
