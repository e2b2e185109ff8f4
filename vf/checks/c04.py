"""C04 Every object of every valid pack reads back exactly."""
import hashlib
import os
import struct
import zlib

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import HarnessError, Section, require, short
from . import c01

RULE = ("a case is a pack (delta forest with generated order, delta kinds, encodings and index version; or one made by git; or one crossing "
        "1, 2 or 4 GiB) and a sequence of queries; non-trivial = an object stored as a delta was read")
ASSUMPTIONS = ["the packs built are valid: they are checked against git index-pack in C08/C09 style in the 'git' section and in thorough runs",
               "packs beyond 1 GiB consist of stored zeros around the objects of interest"]


def queries(n=20):
    return st.lists(st.tuples(st.integers(0, 40), st.sampled_from(["info", "stream", "infoat", "streamat", "part", "collect", "raw", "has"]), st.integers(1, 5000)).map(list),
                    max_size=n)


def forest(max_objs, maxn):
    def s():
        return st.fixed_dictionaries({"pack": gen.pack_descs(max_objs, maxn), "q": queries(), "db": st.sampled_from(["entity", "packed", "git"]),
                                      "iter": st.integers(0, 3)})
    return s


def chain_strategy():
    ops = gen.delta_ops(3, 40)
    link = st.fixed_dictionaries({"b": st.just(-1), "ops": ops, "r": st.integers(0, 1), "z": st.none()})
    return st.fixed_dictionaries({
        "pack": st.fixed_dictionaries({"objs": st.tuples(st.fixed_dictionaries({"t": gen.types(), "c": gen.contents(3000), "z": gen.zdescs()}),
                                                         st.lists(link, min_size=20, max_size=80)).map(lambda t: [t[0]] + t[1]),
                                       "order": st.one_of(st.just([]), st.just(list(range(100))), st.just(list(range(100, 0, -1))), st.lists(st.integers(0, 99), max_size=80)),
                                       "idx": st.sampled_from([1, 2, 3]), "thr": st.sampled_from([0, 100, 1000])}),
        "q": queries(8), "db": st.sampled_from(["entity", "packed", "git"]), "iter": st.integers(0, 3)})


class E:
    """what a query has to answer"""
    def __init__(self, sha, typ, content):
        self.sha, self.type, self.content = sha, typ, content


def check_info(o, e, what):
    require(o.binsha == e.sha, "%s: id %s", what, short(o.binsha))
    require(o.type == e.type, "%s: type %r instead of %r", what, o.type, e.type)
    require(o.type_id == ref.TYPE_ID[e.type], "%s: type id %r", what, o.type_id)
    require(o.size == len(e.content), "%s: size %r instead of %d", what, o.size, len(e.content))


def check_stream(o, e, what, n=0):
    if n % 2:
        check_info(o, e, what)
    if n % 3 == 1:
        step = max(n, len(e.content) // 60 + 1)
        parts = []
        while True:
            d = o.read(step)
            if not d:
                break
            parts.append(bytes(d))
        data = b"".join(parts)
    else:
        data = bytes(o.read())
    if data != e.content:
        from .c05 import diff
        require(False, "%s: content of %s differs: %s", what, e.sha.hex(), diff(data, e.content))
    check_info(o, e, what)


def open_db(kind, ppath, root):
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB, GitDB
    ent = PackEntity(ppath)
    if kind == "entity":
        return ent, ent
    if kind == "packed":
        return ent, PackedDB(os.path.dirname(ppath))
    return ent, GitDB(root)


def verify(ent, db, objs, qs, it, ctx, depth=None, bp=None):
    """objs: list of E"""
    order = sorted(objs, key=lambda e: e.sha)
    index = {e.sha: i for i, e in enumerate(order)}
    for k, op, n in qs:
        e = objs[k % len(objs)]
        if depth and depth[e.sha]:
            ctx.label("depth %s" % ("1" if depth[e.sha] == 1 else "2-4" if depth[e.sha] < 5 else "5+"))
            ctx.nontrivial()
        if op == "info":
            check_info(db.info(e.sha), e, "info")
        elif op == "stream":
            check_stream(db.stream(e.sha), e, "stream", n)
        elif op == "infoat":
            check_info(ent.info_at_index(index[e.sha]), e, "info_at_index")
        elif op == "streamat":
            check_stream(ent.stream_at_index(index[e.sha]), e, "stream_at_index", n)
        elif op == "part":
            d = db.stream(e.sha).read(n)
            require(bytes(d) == e.content[:n], "first %d bytes of %s", n, e.sha.hex())
        elif op == "collect":
            ss = ent.collect_streams(e.sha)
            require(ss[-1].type_id in (1, 2, 3, 4), "the chain of %s ends with an unresolved delta", e.sha.hex())
            require(ss[-1].type == e.type, "the chain of %s ends with type %r", e.sha.hex(), ss[-1].type)
            if depth is not None:
                require(len(ss) == depth[e.sha] + 1, "chain of %d instead of %d entries", len(ss), depth[e.sha] + 1)
        elif op == "raw" and bp is not None:
            be = [x for x in bp.ents if x.sha == e.sha][0]
            o = ent.pack().stream(be.offset)
            require(bytes(o.read()) == be.data, "packed data at %d", be.offset)
        elif op == "has":
            if hasattr(db, "has_object"):
                require(db.has_object(e.sha) is True, "has_object(%s)", e.sha.hex())
                require(not db.has_object(bytes(20 - n % 3) + b"\1" * (n % 3)) or b"\0" * 19 in [x.sha[:19] for x in objs], "has_object of an absent id")
    if it & 1:
        infos = list(ent.info_iter())
        require(len(infos) == len(order), "info_iter yields %d objects instead of %d", len(infos), len(order))
        for o, e in zip(infos, order):
            check_info(o, e, "info_iter")
    if it & 2:
        n = 0
        streams = list(ent.stream_iter())
        require(len(streams) == len(order), "stream_iter yields %d objects instead of %d", len(streams), len(order))
        for o, e in zip(streams, order):
            check_stream(o, e, "stream_iter", n)
            n += 1
    for e in objs:
        check_info(db.info(e.sha), e, "info")
        check_stream(db.stream(e.sha), e, "stream", 1)
        check_info(db.info(e.sha), e, "info after reading")
        if depth and depth[e.sha]:
            ctx.nontrivial()


def body(case, ctx):
    bp = ref.build_pack(case["pack"])
    root = os.path.join(ctx.dir, "objects")
    ppath = ref.write_pack_files(bp, os.path.join(root, "pack"))
    ent, db = open_db(case["db"], ppath, root)
    objs = [E(e.sha, e.type, e.content) for e in bp.ents]
    ctx.label("index %s" % case["pack"]["idx"])
    for e in bp.ents:
        if e.kind == ref.REF and [x for x in bp.ents if x.sha == e.delta_info][0].offset > e.offset:
            ctx.label("base behind its delta")
        if e.kind == ref.REF and [x for x in bp.ents if x.sha == e.delta_info][0].kind == ref.OFS:
            ctx.label("ref delta on ofs delta")
    verify(ent, db, objs, case["q"], case["iter"], ctx, bp.depth, bp)


def body_deep(case, ctx):
    n = case["n"]
    pack = {"objs": [{"t": 2, "c": ["rand", 200, case["seed"]], "z": None}] +
            [{"b": -1, "ops": [["t", -1, 0], ["i", b"%d" % i]] if i % 7 else [["c", 0, 150, 0], ["i", b"%d" % i]], "r": {"ofs": 0, "ref": 1, "mix": i & 1}[case["k"]],
              "z": None} for i in range(n)], "order": case["order"], "idx": 2}
    bp = ref.build_pack(pack)
    root = os.path.join(ctx.dir, "objects")
    ppath = ref.write_pack_files(bp, os.path.join(root, "pack"))
    ent, db = open_db("git", ppath, root)
    ents = sorted(bp.ents, key=lambda e: bp.depth[e.sha])
    for e in (ents[-1], ents[n // 2], ents[0], ents[-2]):
        for o in (db.info(e.sha), ent.info(e.sha)):
            check_info(o, e, "info")
        check_stream(db.stream(e.sha), e, "stream", 1)
        check_stream(ent.stream(e.sha), e, "stream", 4)
        require(len(ent.collect_streams(e.sha)) == bp.depth[e.sha] + 1, "chain length")
    ctx.nontrivial()
    ctx.label("depth %d" % n)


def deep(tier, seed):
    for k in ("ofs", "ref", "mix"):
        yield {"k": k, "n": 1500, "seed": seed % 100, "order": []}
        yield {"k": k, "n": 1200, "seed": seed % 100, "order": list(range(1300, 0, -1))}
        if tier == "thorough":
            yield {"k": k, "n": 4095, "seed": seed % 100, "order": list(range(4097))}


# ---------------------------------------------------------------- packs made by git

def git_strategy():
    whole = st.fixed_dictionaries({"t": gen.types(), "c": gen.contents(20000), "z": st.none()})
    near = st.fixed_dictionaries({"b": st.integers(0, 30), "ops": st.lists(st.one_of(
        st.tuples(st.just("c"), st.integers(0, 3000), st.integers(20, 20000), st.just(0)).map(list),
        st.tuples(st.just("i"), gen.contents(100, 20)).map(list),
        st.tuples(st.just("t"), st.integers(20, 20000), st.just(0)).map(list),
        st.just(["t", -1, 0]), st.just(["t", -1, 0])), min_size=1, max_size=4), "z": st.none()})
    return st.fixed_dictionaries({
        "objs": st.tuples(st.fixed_dictionaries({"t": gen.types(), "c": st.tuples(st.just("rand"), st.integers(200, 9000), st.integers(0, 9)).map(list), "z": st.none()}),
                          st.lists(st.one_of(near, near, whole), min_size=2, max_size=24)).map(lambda t: [t[0]] + t[1]),
        "window": st.sampled_from([10, 10, 50, 1, 0]), "depth": st.sampled_from([50, 250, 5, 1, 0]), "ofs": st.booleans(),
        "level": st.integers(-1, 9), "idx": st.sampled_from(["1", "2", "2,0x0", "2,0x40", "2,0x400"]),
        "q": queries(), "db": st.sampled_from(["entity", "packed", "git"]), "iter": st.integers(0, 3)})


def body_git(case, ctx):
    bp = ref.build_pack({"objs": case["objs"]})
    gd = os.path.join(ctx.dir, "r")
    objects = ref.make_gitdir(gd)
    for sha, (typ, c) in bp.objs.items():
        ref.write_loose(objects, sha, ref.loose_bytes(typ, c))
    out = os.path.join(ctx.dir, "o", "pack")
    os.makedirs(out)
    args = ["-c", "pack.threads=1", "pack-objects", "--quiet", "--window=%d" % case["window"], "--depth=%d" % case["depth"],
            "--compression=%d" % case["level"], "--index-version=%s" % case["idx"]]
    if case["ofs"]:
        args.append("--delta-base-offset")
    p = ref.git(args + [os.path.join(out, "pack")], gitdir=gd, input=b"".join(s.hex().encode() + b"\n" for s in bp.objs))
    ppath = os.path.join(out, "pack-%s.pack" % p.stdout.decode().strip())
    ent, db = open_db(case["db"], ppath, os.path.join(ctx.dir, "o"))
    objs = [E(s, t, c) for s, (t, c) in sorted(bp.objs.items())]
    for e in objs:
        if ent.pack().info(ent.index().offset(ent.index().sha_to_index(e.sha))).type_id in (6, 7):
            ctx.nontrivial()
            ctx.label("git made a delta")
    verify(ent, db, objs, case["q"], case["iter"], ctx)


# ---------------------------------------------------------------- very large packs

GIB = 1 << 30


def stored_zeros(f, n):
    """writes a zlib stream of n zero bytes in stored blocks as sparsely as possible"""
    f.write(b"\x78\x01")
    left = n
    while True:
        k = min(left, 65535)
        left -= k
        f.write(struct.pack("<BHH", 0 if left else 1, k, k ^ 0xffff))
        f.seek(k, 1)
        if not left:
            break
    f.write(struct.pack(">L", ((n % 65521) << 16 | 1) & 0xffffffff))


def zeros_len(n):
    """length of the zlib stream"""
    return 2 + n + 5 * max(1, -(-n // 65535)) + 4


def zeros_for(target):
    """n such that the entry (header of 5 or 6 bytes + zlib stream) is at most target bytes"""
    n = target * 65535 // 65540 - 40
    return n


def sha_zeros(n):
    h = hashlib.sha1(b"blob %d\0" % n)
    buf = bytes(1 << 20)
    for _ in range(n >> 20):
        h.update(buf)
    h.update(buf[:n & ((1 << 20) - 1)])
    return h.digest()


def body_huge(case, ctx):
    """objects on both sides of, and across, the given boundaries; deltas over the whole distance"""
    d = os.path.join(ctx.dir, "objects", "pack")
    os.makedirs(d)
    st_ = os.statvfs(ctx.dir)
    if st_.f_bavail * st_.f_frsize < (3 << 30):
        ctx.label("skipped: no space")
        return
    tmp = os.path.join(d, "tmp")
    items, objs, fillers = [], [], []
    depth = {}

    def entry(f, kind, hdr_extra, data, raw, sha, typ, cont):
        off = f.tell()
        b = ref.entry_header(kind, len(data)) + hdr_extra + raw
        f.write(b)
        items.append((sha, zlib.crc32(b), off))
        objs.append(E(sha, typ, cont))
        return off

    def whole(f, typ, cont, z=None):
        return entry(f, ref.TYPE_ID[typ], b"", cont, ref.zenc(cont, z), ref.obj_id(typ, cont), typ, cont)

    def delta(f, base, base_off, typ, ins, ofs):
        instr = [("i", ins), ("c", 0, len(base), 0), ("c", len(base) // 2, 10, 3)]
        res = ref.delta_result(base, instr)
        dd = ref.delta_bytes(len(base), len(res), instr)
        extra = ref.ofs_enc(f.tell() - base_off) if ofs else ref.obj_id(typ, base)
        off = entry(f, 6 if ofs else 7, extra, dd, ref.zenc(dd), ref.obj_id(typ, res), typ, res)
        return res, off

    def filler(f, upto):
        off = f.tell()
        n = zeros_for(upto - off)
        f.write(ref.entry_header(3, n))
        stored_zeros(f, n)
        sha = sha_zeros(n)
        fillers.append((sha, n, off, f.tell()))
        return n

    with open(tmp, "wb") as f:
        bounds = case["bounds"]
        f.write(b"PACK" + struct.pack(">LL", 2, 0))
        a = ref.content(["rand", 3000, case["seed"]])
        a_off = whole(f, b"blob", a)
        b, b_off = delta(f, a, a_off, b"blob", b"near", True)
        for i, bound in enumerate(bounds):
            span = 60000 + 1000 * i
            filler(f, bound - span // 2)
            s = ref.content(["rand", span, case["seed"] + i])
            s_off = whole(f, ref.TYPES[i % 4], s, {"l": i % 10})
            if not s_off < bound < f.tell():
                raise HarnessError("layout: %d %d %d" % (s_off, bound, f.tell()))
            delta(f, a, a_off, b"blob", b"far ofs %d" % i, True)
            delta(f, a, a_off, b"blob", b"far ref %d" % i, False)
            r, r_off = delta(f, s, s_off, ref.TYPES[i % 4], b"on it %d" % i, True)
            delta(f, r, r_off, ref.TYPES[i % 4], b"on that %d" % i, bool(i & 1))
        c, c_off = delta(f, b, b_off, b"blob", b"chain over all", True)
        whole(f, b"tag", b"the last one %d" % case["seed"])
        end = f.tell()
        f.seek(8)
        f.write(struct.pack(">L", len(objs) + len(fillers)))
    h = hashlib.sha1()
    if case["trailer"]:
        with open(tmp, "rb") as f:
            left = end
            while left:
                x = f.read(min(left, 1 << 20))
                left -= len(x)
                h.update(x)
    with open(tmp, "r+b") as f:
        f.seek(end)
        f.write(h.digest())
    for sha, n, off, stop in fillers:
        items.append((sha, 0, off))
    idx = ref.idx_v2(items, h.digest())
    ppath = os.path.join(d, "pack-%s.pack" % h.hexdigest())
    os.rename(tmp, ppath)
    with open(ppath[:-4] + "idx", "wb") as f:
        f.write(idx)
    if case.get("git"):
        p = ref.git(["index-pack", "-o", os.path.join(ctx.dir, "g.idx"), ppath], objdir=os.path.join(ctx.dir, "objects"), check=False)
        if p.returncode:
            raise HarnessError("git does not accept the pack: %r" % p.stderr[-300:])
    from gitdb.pack import PackFile
    for kind in ("entity", "git", "packed"):
        ent, db = open_db(kind, ppath, os.path.join(ctx.dir, "objects"))
        order = list(reversed(objs)) if kind == "git" else objs
        for e in order:
            check_info(db.info(e.sha), e, "info")
            check_stream(db.stream(e.sha), e, "stream", 1)
            if kind != "git":
                require(ent.is_valid_stream(e.sha) is True, "is_valid_stream")
                require(ent.is_valid_stream(e.sha, use_crc=True) is True, "is_valid_stream by crc")
        require(sorted(ent.index().offsets()) == sorted(i[2] for i in items), "offsets()")
        for sha, n, off, stop in fillers:
            o = db.info(sha)
            require(o.size == n and o.type == b"blob", "info of an object of %d bytes: %r %r", n, o.type, o.size)
            o = db.stream(sha)
            require(o.size == n, "size")
            d1 = o.read(100000)
            require(len(d1) == 100000 and not any(d1), "beginning of an object of %d bytes", n)
            require(not any(o.read(1)), "next byte")
            if case.get("full") and kind == "packed":
                left = n - 100001
                while left:
                    x = o.read(min(1 << 22, left))
                    require(len(x) == min(1 << 22, left) and x.count(0) == len(x), "the middle of an object of %d bytes", n)
                    left -= len(x)
                require(o.read(1) == b"", "end of an object of %d bytes", n)
    p = PackFile(ppath)
    for e, (sha, crc, off) in zip(objs, items):
        o = p.stream(off)
        require(o.pack_offset == off, "pack offset %r instead of %d", o.pack_offset, off)
        o.read()
    ctx.nontrivial()


def huge(tier, seed):
    yield {"bounds": [GIB, 2 * GIB], "seed": seed % 1000, "trailer": 0}
    if tier == "thorough":
        yield {"bounds": [GIB, 2 * GIB, 3 * GIB, 4 * GIB], "seed": seed % 1000, "trailer": 1, "git": 1, "full": 1}
        yield {"bounds": [2 * GIB + 17, 4 * GIB + 5], "seed": seed % 1000 + 1, "trailer": 1, "git": 1}


def many_strategy():
    """several very large packs, opened, read and dropped in any order"""
    n, k = st.integers(0, 3), st.integers(0, 7)
    op = st.one_of(st.tuples(st.just("open"), n, st.sampled_from(["entity", "packed"])).map(list), st.tuples(st.just("open"), n, st.sampled_from(["entity", "packed"])).map(list),
                   st.tuples(st.just("stream"), n, k, st.sampled_from([0, 0, 1, 100])).map(list), st.tuples(st.just("stream"), n, k, st.sampled_from([0, 0, 1, 100])).map(list),
                   st.tuples(st.just("info"), n, k).map(list), st.tuples(st.just("chain"), n, k).map(list), st.tuples(st.just("verify"), n, k, st.booleans()).map(list),
                   st.tuples(st.just("read"), k, st.sampled_from([0, 50])).map(list), st.tuples(st.just("close"), n).map(list), st.tuples(st.just("close"), n).map(list),
                   st.tuples(st.just("forget"), k).map(list))
    return st.fixed_dictionaries({"sizes": st.lists(st.sampled_from([1, 3, 5, 5, 7, 9]), min_size=2, max_size=4), "seed": st.integers(0, 9), "ops": st.lists(op, min_size=3, max_size=20)})


def body_many(case, ctx):
    """more is mapped at a time than the map manager wants to have; what is still in use must stay readable"""
    import gc
    import gitdb.util
    from gitdb.pack import PackFile
    mman = getattr(gitdb.util, "mman", None)
    packs, opened, streams = [], {}, []

    def clean():
        opened.clear()
        streams.clear()
        gc.collect(0)
        if mman is not None:
            try:
                mman.collect()
            finally:
                mman.__init__()     # otherwise a case would depend on the ones before it
    clean()
    ctx.cleanup(clean)
    for i, g in enumerate(case["sizes"]):
        d = os.path.join(ctx.dir, "objects%d" % i, "pack")
        os.makedirs(d)
        a = ref.content(["rand", 900, case["seed"] + i])
        items, ents, offs = [], [], []
        with open(os.path.join(d, "tmp"), "w+b") as f:
            f.write(b"PACK" + struct.pack(">LL", 2, 6))

            def entry(kind, extra, data, typ, cont):
                off = f.tell()
                b = ref.entry_header(kind, len(data)) + extra + zlib.compress(data)
                f.write(b)
                sha = ref.obj_id(typ, cont)
                items.append((sha, zlib.crc32(b), off))
                ents.append(E(sha, typ, cont))
                offs.append(off)
            entry(3, b"", a, b"blob", a)
            for n in range(4):
                if n == 2:
                    f.seek(g * GIB - 3000)          # the rest lies beyond a hole
                base = ents[n if n % 2 else 0]
                instr = [("i", b"delta %d" % n), ("c", 0, len(base.content), 0)]
                res = ref.delta_result(base.content, instr)
                dd = ref.delta_bytes(len(base.content), len(res), instr)
                entry(7 if n % 2 else 6, base.sha if n % 2 else ref.ofs_enc(f.tell() - offs[0]), dd, b"blob", res)
            t = b"tag %d %d" % (case["seed"], i)
            entry(4, b"", t, b"tag", t)
            f.write(b"%20d" % i)
        name = os.path.join(d, "pack-%040d" % i)
        os.rename(os.path.join(d, "tmp"), name + ".pack")
        with open(name + ".idx", "wb") as f:
            f.write(ref.idx_v2(items, b"%20d" % i))
        packs.append((name + ".pack", ents, offs, os.path.dirname(d)))
    total = 0
    for op in case["ops"]:
        k = op[0]
        i = op[1] % len(packs)
        path, ents, offs, root = packs[i]
        if k in ("stream", "info", "chain", "verify", "open"):
            if i not in opened:
                opened[i] = open_db(op[2] if k == "open" else "entity", path, root)
                total += case["sizes"][i]
                if total > 8:
                    ctx.nontrivial(bool(streams))
                    ctx.label("more than 8 GiB")
            if k == "open":
                continue
            ent, db = opened[i]
            e = ents[op[2] % len(ents)]
            if k == "info":
                check_info(db.info(e.sha), e, "info")
                o = PackFile(path).info(offs[op[2] % len(ents)])
                streams.append([o, e, None, bytes(getattr(o, "delta_info", 0)) if isinstance(getattr(o, "delta_info", 0), (bytes, memoryview)) else None])
            elif k == "stream":
                o = db.stream(e.sha)
                d = bytes(o.read(op[3])) if op[3] else b""
                require(d == e.content[:op[3]], "the first %d bytes of %s", op[3], e.sha.hex())
                streams.append([o, e, len(d), None])
            elif k == "chain":
                for o in ent.collect_streams(e.sha)[-1:]:
                    streams.append([o, ents[0] if e.type == b"blob" else e, 0, None])
            elif op[2] % len(ents) != 2:        # which the hole follows: it would count for its checksum
                require(ent.is_valid_stream(e.sha, use_crc=op[3]) is True, "is_valid_stream of %s", e.sha.hex())
        elif k == "close":
            opened.pop(i, None)
            ent = db = None
            gc.collect(0)
        elif streams:
            x = streams[op[1] % len(streams)]
            o, e, pos, base = x
            if k == "forget":
                streams.remove(x)
            elif pos is None:
                if base is not None:
                    require(bytes(o.delta_info) == base, "the base of an entry which was described before has changed")
            else:
                d = bytes(o.read(op[2])) if op[2] else bytes(o.read())
                want = e.content[pos:pos + op[2]] if op[2] else e.content[pos:]
                require(d == want, "read(%d) at %d of %s returned %s instead of %s", op[2], pos, e.sha.hex(), short(d), short(want))
                x[2] += len(d)
        o = x = ent = db = None
    for o, e, pos, base in streams:
        if pos is not None:
            require(bytes(o.read()) == e.content[pos:], "the rest of %s from %d", e.sha.hex(), pos)
    o = None


def sizes(tier, seed):
    """bases, results and instructions of every size near a power of two, a power of ten or a multiple of a buffer size"""
    for i, n in enumerate(c01.size_list(tier)):
        if tier == "quick" and n > 9000000:
            continue
        kind = ["rand", "rep", "text"][i % 3]
        whole = {"t": i % 4, "c": [kind, n, seed % 100], "z": {"l": [1, 6, 0, 9][i // 2 % 4]}}
        d = [{"b": 0, "ops": [["c", 0, n - 1, 0], ["i", b"x"]], "r": 0, "z": None}, {"b": 1, "ops": [["i", b"y"], ["c", 0, n, 0]], "r": i & 1, "z": None},
             {"b": 2, "ops": [["c", 1, n - 1, 0]], "r": 1, "z": None}]
        if n < 300000:
            d.append({"b": 0, "ops": [["i", ["rand", n, seed % 100 + 1]]], "r": 0, "z": {"l": i % 10}})
            d.append({"b": 4, "ops": [["c", n // 2, n, 0], ["c", 0, n // 2, 255]], "r": 1, "z": None})
        else:
            d = d[:2]
        yield {"pack": {"objs": [whole] + d, "order": [] if i % 3 else list(range(10)), "idx": 1 + i % 2, "thr": 0}, "q": [[1, "stream", 5000], [0, "part", max(1, n // 3)]],
               "db": ["entity", "packed", "git"][i % 3], "iter": 0}


def sections():
    return [Section("sizes", body, enum=sizes),
            Section("huge", body_huge, enum=huge),
            Section("forest", body, forest(10, 3000), quick=4800, thorough=100000),
            Section("larger", body, forest(25, 70000), quick=240, thorough=10000),
            Section("many", body_many, many_strategy, quick=700, thorough=20000),
            Section("deep", body_deep, enum=deep),
            Section("chains", body, chain_strategy, quick=240, thorough=8000),
            Section("git", body_git, git_strategy, quick=480, thorough=10000)]
