"""C08 Packs written are valid, complete and what git expects."""
import hashlib
import os
import struct
import zlib
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, Violation, require, short
from . import c01, c06

RULE = ("a case is a collection of objects from generated sources, a compression level and a way of writing; non-trivial = at least two objects were "
        "written, or an error was due")
ASSUMPTIONS = ["the collection holds no object twice", "git index-pack (2.43) is the judge of validity and of the index bytes"]


def strategy(maxn=3000, maxo=8):
    obj = st.fixed_dictionaries({"t": gen.types(), "c": gen.contents(maxn), "z": gen.zdescs(), "src": st.sampled_from(["bytes", "loose", "mem", "pack", "pack", "packdb", "git"])})

    def s():
        return st.fixed_dictionaries({
            "objs": st.lists(obj, max_size=maxo, min_size=0), "pack": gen.pack_descs(5, maxn), "level": st.sampled_from([-1, 0, 1, 1, 2, 6, 9]),
            "how": st.sampled_from(["create", "create", "write", "noindex"]), "iter": st.sampled_from(["list", "tuple", "gen", "iter", "set"]),
            "count": st.sampled_from([None, None, "n", "n", "less", "more", "zero"]), "k": st.integers(1, 5), "part": st.integers(0, 100)})
    return s


def parse_pack(data):
    """own parser -> [(type, content, offset, crc)]; also checks that the entries fill the file exactly"""
    sig, ver, n = struct.unpack(">4sLL", data[:12])
    require(sig == b"PACK" and ver == 2, "pack header %r version %d", sig, ver)
    require(hashlib.sha1(data[:-20]).digest() == data[-20:], "the pack's checksum is wrong")
    o = 12
    out = []
    for i in range(n):
        t, size, d = ref.parse_entry_header(data, o)
        z = zlib.decompressobj()
        c = z.decompress(data[d:-20])
        require(z.eof, "entry %d does not end", i)
        end = len(data) - 20 - len(z.unused_data)
        require(len(c) == size, "entry %d: %d bytes, header states %d", i, len(c), size)
        require(t in ref.ID_TYPE, "entry %d: kind %d", i, t)
        out.append((ref.ID_TYPE[t], c, o, zlib.crc32(data[o:end])))
        o = end
    require(o == len(data) - 20, "%d bytes behind the last entry", len(data) - 20 - o)
    return out


def body(case, ctx):
    from gitdb.base import OStream, IStream
    from gitdb.db import LooseObjectDB, MemoryDB, PackedDB, GitDB
    from gitdb.pack import PackEntity
    specs = case["objs"]
    srcs = {o["src"] for o in specs}
    objs = {}
    dirs = os.path.join(ctx.dir, "src")
    ldb = LooseObjectDB(os.path.join(dirs, "loose"))
    mdb = MemoryDB()
    streams = []
    if srcs & {"pack", "packdb", "git"}:
        bp = ref.build_pack(case["pack"])
        ppath = ref.write_pack_files(bp, os.path.join(dirs, "git", "pack"))
        pent = PackEntity(ppath)
        pdb = PackedDB(os.path.dirname(ppath))
        gdb = GitDB(os.path.join(dirs, "git"))
        pe = list(bp.ents)
    take = []
    npack = 0
    for o in specs:
        if o["src"] in ("pack", "packdb", "git"):
            if npack >= len(pe):
                continue
            e = pe[npack]
            npack += 1
            typ, c, sha = e.type, e.content, e.sha
        else:
            typ, c = ref.TYPES[o["t"]], ref.content(o["c"])
            sha = ref.obj_id(typ, c)
        if sha in objs:
            continue
        objs[sha] = (typ, c)
        take.append((o, sha, typ, c))

    def opened():
        for o, sha, typ, c in take:
            src = o["src"]
            if src == "bytes":
                s = OStream(sha, typ, len(c), BytesIO(c))
            elif src == "loose":
                ref.write_loose(ldb.root_path(), sha, ref.loose_bytes(typ, c, o["z"]))
                s = ldb.stream(sha)
            elif src == "mem":
                mdb.store(IStream(typ, len(c), BytesIO(c)))
                s = mdb.stream(sha)
            elif src == "pack":
                s = pent.stream(sha)
            elif src == "packdb":
                s = pdb.stream(sha)
            else:
                s = gdb.stream(sha)
            yield s
    kind = case["iter"]
    if kind == "list":
        it = list(opened())
    elif kind == "tuple":
        it = tuple(opened())
    elif kind == "set":
        it = {i: s for i, s in enumerate(opened())}.values()
    elif kind == "iter":
        it = iter(list(opened()))
    else:
        it = opened()
    n = len(take)
    cnt = case["count"]
    count = {None: None, "n": n, "less": max(1, n - case["k"]), "more": n + case["k"], "zero": 0}[cnt]
    if cnt == "less" and n == 0:
        count = None
    want = take if cnt != "less" else take[:count or 0]
    out = os.path.join(ctx.dir, "out")
    os.mkdir(out)
    ctx.nontrivial(len(want) > 1 or cnt == "more")
    for o, *_ in want:
        ctx.label("from " + o["src"])
    if not want:
        ctx.label("no objects")
    how = case["how"]
    ent = None
    pb, ib = [], []
    try:
        kw = {} if case["level"] == 1 else {"zlib_compression": case["level"]}
        if how == "create":
            ent = PackEntity.create(it, out, count, **kw)
        elif how == "write":
            shas = PackEntity.write_pack(it, pb.append, ib.append, count, **kw)
        else:
            shas = PackEntity.write_pack(it, pb.append, None, count, **kw)
    except Exception as e:
        if cnt == "more" and isinstance(e, ValueError):
            ctx.label("refused: too few objects")
            require(os.listdir(out) == [], "files left behind: %s", os.listdir(out))
            return
        raise
    require(cnt != "more", "a pack of %d objects was written although %r were stated", n, count)
    if how == "create" and case["part"] % 4 == 0 and want:
        # once more into the same directory, from other streams
        ent.info(want[0][1])
        again = [OStream(sha, typ, len(c), BytesIO(c)) for _, sha, typ, c in want]
        PackEntity.create(again, out, None, **kw)
    if how == "create":
        names = sorted(os.listdir(out))
        require(len(names) == 2, "files: %s", names)
        with open(os.path.join(out, names[1]), "rb") as f:
            pdata = f.read()
        with open(os.path.join(out, names[0]), "rb") as f:
            idata = f.read()
        h = pdata[-20:].hex()
        require(names == ["pack-%s.idx" % h, "pack-%s.pack" % h], "files %s for the checksum %s", names, h)
        for nm in names:
            require(os.stat(os.path.join(out, nm)).st_mode & 0o400, "the owner can't read %s", nm)
        require(os.path.basename(ent.pack().path()) == "pack-%s.pack" % h, "entity for %s", ent.pack().path())
    else:
        pdata = b"".join(bytes(b) for b in pb)
        idata = b"".join(bytes(b) for b in ib)
        require(bytes(shas[0]) == pdata[-20:], "returned pack checksum %s", short(shas[0]))
        if how == "noindex":
            require(shas[1] is None, "returned index checksum %s", short(shas[1]))
        else:
            require(bytes(shas[1]) == idata[-20:], "returned index checksum %s", short(shas[1]))
    if cnt == "less" and kind in ("iter", "gen"):
        left = [bytes(s.binsha) for s in it]
        require(left == [sha for _, sha, _, _ in take[len(want):]], "%d of %d objects are left in the iterator after %d were packed", len(left), n, len(want))
        ctx.label("iterator goes on")
    parsed = parse_pack(pdata)
    require([(t, c) for t, c, _, _ in parsed] == [(t, c) for _, _, t, c in want], "the pack holds other objects than were given: %s",
            short([(t, len(c)) for t, c, _, _ in parsed]))
    packdir = os.path.join(ctx.dir, "objects", "pack")
    os.makedirs(packdir)
    path = os.path.join(packdir, "pack-%s.pack" % pdata[-20:].hex())
    with open(path, "wb") as f:
        f.write(pdata)
    if want:
        p = ref.git(["index-pack", "-o", path[:-4] + "idx", path], objdir=os.path.join(ctx.dir, "objects"), check=False)
        require(p.returncode == 0, "git does not accept the pack: %s", p.stderr.decode("utf8", "replace")[-300:])
        with open(path[:-4] + "idx", "rb") as f:
            git_idx = f.read()
    else:
        git_idx = ref.idx_v2([], pdata[-20:])
    require(how == "noindex" or idata == git_idx, "the index differs from git's (%d bytes, git's has %d)", len(idata), len(git_idx))
    if how == "noindex" or not want:
        return
    if ent is None:
        ent = PackEntity(path)
    require(ent.index().size() == len(want) and ent.pack().size() == len(want), "sizes")
    for o, sha, typ, c in want:
        s = ent.stream(sha)
        i = ent.info(sha)
        require((i.type, i.size, i.binsha) == (typ, len(c), sha), "info %r", i)
        require((s.type, s.size, s.binsha) == (typ, len(c), sha) and bytes(s.read()) == c, "object %s reads back differently", sha.hex())
        require(ent.is_valid_stream(sha) is True and ent.is_valid_stream(sha, True) is True, "verification of %s", sha.hex())


class Zeros:
    """a source of n zeros"""
    block = bytes(1 << 20)

    def __init__(self, n):
        self.left = n

    def read(self, n=-1):
        n = self.left if n is None or n < 0 else min(n, self.left)
        self.left -= n
        return self.block[:n] if n <= len(self.block) else bytes(n)


def body_huge(case, ctx):
    """an object whose size takes many bits"""
    from gitdb.base import OStream
    from gitdb.pack import PackEntity
    n = case["n"]
    h = hashlib.sha1(b"blob %d\0" % n)
    z = Zeros(n)
    while z.left:
        h.update(z.read(1 << 20))
    sha = h.digest()
    small = ref.obj_id(b"blob", b"x")
    out = os.path.join(ctx.dir, "out")
    os.mkdir(out)
    objs = [OStream(small, b"blob", 1, BytesIO(b"x")), OStream(sha, b"blob", n, Zeros(n)), OStream(ref.obj_id(b"tree", b""), b"tree", 0, BytesIO(b""))]
    ent = PackEntity.create(objs, out, 3 if case["count"] else None, zlib_compression=case["level"])
    path = ent.pack().path()
    with open(path[:-5] + ".idx", "rb") as f:
        idx = f.read()
    cp = os.path.join(ctx.dir, "git.pack")
    os.link(path, cp)
    p = ref.git(["index-pack", "-o", cp[:-5] + ".idx", cp], objdir=os.path.join(ctx.dir, "objects"), check=False)
    require(p.returncode == 0, "git does not accept the pack: %s", p.stderr.decode("utf8", "replace")[-300:])
    with open(cp[:-5] + ".idx", "rb") as f:
        require(f.read() == idx, "the index differs from git's")
    i = ent.info(sha)
    require((i.type, i.size) == (b"blob", n), "info %r", tuple(i))
    s = ent.stream(sha)
    h = hashlib.sha1(b"blob %d\0" % s.size)
    while True:
        d = s.read(1 << 20)
        h.update(d)
        if not d:
            break
    require(h.digest() == sha, "the object reads back differently")
    require(ent.is_valid_stream(sha, True) is True, "the checksum is reported as wrong")
    ctx.nontrivial()


def huge(tier, seed):
    yield {"n": (1 << 25) + 3 + seed % 100, "count": False, "level": 1}
    yield {"n": (1 << 31) + 5 + seed % 100, "count": True, "level": 1}
    if tier == "thorough":
        for n in ((1 << 25) - 1, 1 << 25, 1 << 28, (1 << 31) + 5, (1 << 32) + 5):
            yield {"n": n, "count": True, "level": 1}
        yield {"n": 1 << 26, "count": True, "level": 0}


def sizes(tier, seed):
    """every size near a power of two, a power of ten or a multiple of the chunk size"""
    ns = c01.size_list(tier)
    base = {"pack": {"objs": [{"t": 0, "c": b"x"}], "idx": 2}, "iter": "list", "k": 1, "part": 1}
    groups = [[n for n in ns if n < 3000][i::20] for i in range(20)] + [[n] for n in ns if n >= 3000]
    for i, g in enumerate(groups):
        for kind in ("rand", "rep") if tier == "quick" else ("rand", "rep", "zero"):
            yield dict(base, objs=[{"t": (i + k) % 4, "c": [kind, n, seed % 100], "z": None, "src": "loose" if (i + k) % 3 == 0 else "bytes"} for k, n in enumerate(g)],
                       level=[1, 6, 0, 9, -1][(i + (kind == "rep")) % 5] if len(g) == 1 or i % 2 else 1, how=["create", "write"][i % 4 == 3], count=[None, "n"][i % 2])
    for n in (300, 3000) if tier == "quick" else (300, 3000, 20000):
        yield dict(base, objs=[{"t": k % 4, "c": b"object %d %d" % (k, seed), "z": None, "src": "bytes"} for k in range(n)], level=1, how="create", count=None)


def sections():
    return [Section("sizes", body, enum=sizes),
            Section("huge", body_huge, enum=huge),
            Section("write", body, strategy(), quick=5000, thorough=40000),
            Section("larger", body, strategy(300000, 5), quick=500, thorough=4000),
            Section("large", body, strategy(8400000, 3), quick=64, thorough=600),
            # packs of gigabytes are represented by their list of offsets
            Section("index", c06.body_write, lambda: c06.strategy().map(lambda c: dict(c, v=2)), quick=2000, thorough=40000)]
