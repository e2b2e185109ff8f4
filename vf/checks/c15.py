"""C15 Damaged files never hang reading, spill over, or affect other objects."""
import os
import zlib

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import HarnessError, Section, Violation, require, short
from .c09 import limit_memory, unlimit_memory

RULE = ("a case is a repository (loose objects and a pack with deltas) and damage done to one file by a list of byte edits aimed at its structure, or a pack "
        "assembled with malformed, self-referential or cyclic entries; everything is then queried and read in pieces; non-trivial = some query answered "
        "or failed differently than before the damage")
ASSUMPTIONS = ["a work budget of 20 million steps of gitdb code per case stands for 'a bounded amount of work'", "an address space limit turns absurd allocations into errors",
               "any exception counts as a report"]


# ---------------------------------------------------------------- reading everything

def outcome(fn):
    """-> ("ok", value) or ("error", class name)"""
    try:
        return ("ok", fn())
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return ("error", type(e).__name__)


def read_all(s, piece, what):
    """content of the stream, never more than it announced"""
    size = max(0, s.size)       # a size below zero may be reported for a damaged header
    if piece <= 0:
        d = bytes(s.read())
        require(len(d) <= size, "%s: read() returned %d bytes of %d", what, len(d), size)
        require(len(s.read()) == 0 or len(d) < size, "%s: more than %d bytes", what, size)
        return d
    out, n, left = [], 0, 3000
    while True:
        d = bytes(s.read(piece))
        require(len(d) <= piece, "%s: read(%d) returned %d bytes", what, piece, len(d))
        n += len(d)
        require(n <= size, "%s: %d bytes read of %d", what, n, size)
        out.append(d)
        left -= 1
        if not d or not left:
            break
    return b"".join(out)


def examine(db, sha, piece, what):
    """-> (info, stream) outcomes"""
    i = outcome(lambda: (lambda o: (o.type, o.size))(db.info(sha)))

    def stream():
        s = db.stream(sha)
        head = (s.type, s.size)
        return head + (read_all(s, piece, "%s %s" % (what, sha.hex())),)
    st_ = outcome(stream)
    h = outcome(lambda: db.has_object(sha))
    if st_[0] == "ok":
        require(len(st_[1][2]) <= max(0, st_[1][1]), "more bytes than announced")
    return i, st_, h


def whole(db):
    def ids():
        n = 0
        for _ in db.sha_iter():
            n += 1
        return n
    outcome(db.size)
    outcome(ids)


def pack_level(path, offsets):
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    def walk():
        p = PackFile(path)
        p.size(), p.version(), p.checksum()
        for s in p.stream_iter():
            n = 0
            while n < 200000:
                d = s.read(65536)
                require(len(d) <= 65536, "read(65536) returned %d bytes", len(d))
                if not d:
                    break
                n += len(d)
            require(n <= s.size, "an entry of %d bytes yielded %d", s.size, n)
    outcome(walk)
    p = PackFile(path)
    for o in offsets:
        outcome(lambda: p.info(o))
        outcome(lambda: p.stream(o))
        outcome(lambda: p.collect_streams(o))
    outcome(lambda: [None for _ in PackEntity(path).stream_iter()])
    outcome(lambda: [None for _ in PackEntity(path).info_iter()])

    def index():
        x = PackIndexFile(path[:-4] + "idx")
        x.version(), x.size(), x.packfile_checksum(), x.indexfile_checksum()
        for i in range(min(x.size(), 50)):
            outcome(lambda: x.entry(i))
            outcome(lambda: x.offset(i))
            outcome(lambda: x.sha_to_index(x.sha(i)))
            outcome(lambda: x.partial_sha_to_index(bytes(x.sha(i))[:3], 6))
        x.offsets()
    outcome(index)


# ---------------------------------------------------------------- byte damage

def strategy():
    pos = st.one_of(
        st.tuples(st.just("h"), st.integers(0, 40)).map(list), st.tuples(st.just("t"), st.integers(1, 64)).map(list),
        st.tuples(st.just("e"), st.integers(0, 12), st.integers(0, 26)).map(list), st.tuples(st.just("e"), st.integers(0, 12), st.integers(0, 3)).map(list),
        st.tuples(st.just("f"), st.integers(0, 1000)).map(list), st.tuples(st.just("x"), st.integers(0, 5), st.integers(0, 30)).map(list))
    val = st.one_of(st.sampled_from([0, 1, 0x7f, 0x80, 0xff]), st.integers(0, 255))
    op = st.one_of(
        st.tuples(st.just("set"), pos, val).map(list), st.tuples(st.just("xor"), pos, st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 255])).map(list),
        st.tuples(st.just("set"), pos, val).map(list), st.tuples(st.just("xor"), pos, st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 255])).map(list),
        st.tuples(st.just("num"), pos, st.sampled_from([2, 4, 8]), st.sampled_from([0, 1, 255, 65536, 1 << 20, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 62, (1 << 64) - 1])).map(list),
        st.tuples(st.just("trunc"), pos).map(list), st.tuples(st.just("ins"), pos, st.binary(min_size=1, max_size=6)).map(list),
        st.tuples(st.just("del"), pos, st.integers(1, 30)).map(list), st.tuples(st.just("zero"), pos, st.integers(1, 40)).map(list),
        st.tuples(st.just("dup"), pos, pos, st.integers(1, 40)).map(list), st.tuples(st.just("rand"), pos, st.integers(1, 60), st.integers(0, 99)).map(list))
    return st.fixed_dictionaries({
        "desc": gen.pack_descs(7, 800, (1, 2, 3)), "loose": st.lists(st.fixed_dictionaries({"t": gen.types(), "c": gen.contents(3000, 30), "z": gen.zdescs()}), max_size=4),
        "file": st.integers(0, 8), "ops": st.lists(op, min_size=1, max_size=4), "piece": st.sampled_from([0, 0, 1, 7, 100, 4096, 1 << 20]), "order": st.integers(0, 3)})


def damage(data, ops, entries, regions):
    b = bytearray(data)
    for op in ops:
        n = len(b)

        def where(p):
            if p[0] == "h":
                i = p[1]
            elif p[0] == "t":
                i = n - p[1]
            elif p[0] == "e" and entries:
                i = entries[p[1] % len(entries)] + p[2]
            elif p[0] == "x" and regions:
                i = regions[p[1] % len(regions)] + p[2]
            else:
                i = (p[1] * 7919 + 13) * n // 8000000 if p[0] == "f" and False else p[1] * n // 1001
            return min(max(i, 0), max(n - 1, 0))
        i = where(op[1])
        if op[0] == "set" and n:
            b[i] = op[2]
        elif op[0] == "xor" and n:
            b[i] ^= op[2]
        elif op[0] == "num":
            v = (op[3] & ((1 << 8 * op[2]) - 1)).to_bytes(op[2], "big")
            b[i:i + op[2]] = v[:max(0, min(op[2], n - i))]
        elif op[0] == "trunc":
            del b[i:]
        elif op[0] == "ins":
            b[i:i] = op[2]
        elif op[0] == "del":
            del b[i:i + op[2]]
        elif op[0] == "zero":
            m = min(op[2], n - i)
            b[i:i + m] = bytes(m)
        elif op[0] == "dup":
            j = where(op[2])
            m = min(op[3], n - i, n - j)
            b[j:j + m] = b[i:i + m]
        elif op[0] == "rand":
            m = min(op[2], n - i)
            b[i:i + m] = ref.content(["rand", m, op[3]])
    return bytes(b)


def put(path, data):
    tmp = path + ".new"
    with open(tmp, "wb") as f:
        f.write(data)
    os.rename(tmp, path)        # never in place: the old one may be mapped


def body(case, ctx):
    from gitdb.db import GitDB
    limit_memory()
    ctx.cleanup(unlimit_memory)
    bp = ref.build_pack(case["desc"])
    root = ref.make_gitdir(os.path.join(ctx.dir, "r"))
    content = dict(bp.objs)
    loose = []
    for d in case["loose"]:
        t, c = ref.TYPES[d["t"]], ref.content(d["c"])
        sha = ref.obj_id(t, c)
        if sha not in content:
            content[sha] = (t, c)
            loose.append((sha, ref.loose_bytes(t, c, d["z"])))
    files = [("pack", bp.pack), ("idx", bp.idx)] + loose
    which = case["file"] % (len(files) + 2)
    if which >= len(files):
        which = 0
    name, data = files[which]
    n = len(bp.ents)
    entries, regions = [], []
    if name == "pack":
        entries = [e.offset for e in bp.ents] + [e.data_offset for e in bp.ents]
    elif name == "idx":
        regions = [0, 4 * 255, 1024, 1024 + 24 * n] if bp.version == 1 else [4, 8 + 4 * 255, 1032, 1032 + 20 * n, 1032 + 24 * n, 1032 + 28 * n]
    broken = damage(data, case["ops"], entries, regions)
    if broken == data:
        return
    safe = set(content)         # objects the damage can't concern
    if name == "pack":
        hit = [i for i in range(max(len(data), len(broken))) if data[i:i + 1] != broken[i:i + 1]]
        off = set()
        # only changes within entries are confined to objects
        in_hdr = len(data) != len(broken) or any(i < 12 or i >= len(data) - 20 for i in hit)
        if in_hdr:
            safe.clear()
        direct = {e.sha for e in bp.ents if any(e.offset <= i < e.end for i in hit)}
        if in_hdr:
            safe -= set(bp.objs)
        direct |= {e.sha for e in bp.ents if e.sha not in safe}
        for e in bp.ents:
            s = e.sha
            while s is not None:
                if s in direct:
                    safe.discard(e.sha)
                s = bp.base[s]
    elif name == "idx":
        safe.clear()
    else:
        safe.discard(name)
    pd = os.path.join(root, "pack")
    ref.write_pack_files(bp, pd)
    for sha, raw in loose:
        ref.write_loose(root, sha, raw)
    pbase = os.path.join(pd, "pack-%s." % bp.packsha.hex())
    put(pbase + name if name in ("pack", "idx") else os.path.join(root, name.hex()[:2], name.hex()[2:]), broken)
    ctx.label("damaged %s" % (name if isinstance(name, str) else "loose"))
    absent = [s[:19] + bytes([s[19] ^ 1]) for s in content][:3]
    order = sorted(content)
    if case["order"] & 1:
        order.reverse()
    for db in [GitDB(root)] + ([GitDB(root)] if case["order"] & 2 else []):
        for sha in order + absent:
            i, s, h = examine(db, sha, case["piece"], name if isinstance(name, str) else "loose")
            if sha in safe:
                t, c = content[sha]
                want = (("ok", (t, len(c))), ("ok", (t, len(c), c)) if case["piece"] == 0 or case["piece"] * 3000 > len(c) else s, ("ok", True))
                require((i, s, h) == want, "damage elsewhere changed %s: %s, expected %s %d", sha.hex(), short((i, s, h), 300), t, len(c))
            elif sha in content:
                t, c = content[sha]
                if (i, s) != (("ok", (t, len(c))), ("ok", (t, len(c), c))):
                    ctx.nontrivial()
                    ctx.label("%s %s" % ("loose" if sha not in bp.objs else "packed", s[1] if s[0] == "error" else "other content" if len(s[1][2]) == s[1][1] else "short content"))
        whole(db)
        outcome(lambda: db.partial_to_complete_sha_hex(order[0].hex()[:6]))
        outcome(lambda: db.update_cache(force=True))
    if name in ("pack", "idx"):
        # loose objects do not depend on packs
        from gitdb.db import LooseObjectDB
        for sha, _ in loose:
            i, s, h = examine(LooseObjectDB(root), sha, 0, "loose")
            t, c = content[sha]
            require((i, s, h) == (("ok", (t, len(c))), ("ok", (t, len(c), c)), ("ok", True)), "a damaged pack changed the loose object %s", sha.hex())
    if name in ("pack", "idx"):
        pack_level(pbase + "pack", [e.offset for e in bp.ents] + [0, 12, len(broken) - 20, len(broken) + 5, bp.ents[-1].end])
        from gitdb.pack import PackEntity
        for e in bp.ents:
            for crc in (True, False):
                outcome(lambda: PackEntity(pbase + "pack").is_valid_stream(e.sha, crc))


# ---------------------------------------------------------------- malformed structure

def strategy_structure():
    c = gen.contents(300, 20)
    i = st.integers(0, 12)
    ent = st.one_of(
        st.tuples(st.just("ok"), gen.types(), c).map(list), st.tuples(st.just("ok"), gen.types(), c).map(list),
        st.tuples(st.just("ref"), i, c).map(list), st.tuples(st.just("ref"), i, c).map(list), st.tuples(st.just("ofs"), i, c).map(list), st.tuples(st.just("ofs"), i, c).map(list),
        st.tuples(st.just("self"), st.sampled_from(["ref", "ofs"]), c).map(list),
        st.tuples(st.just("raw-ofs"), st.sampled_from([0, 1, 2, 11, 13, 1000, 1 << 31, 1 << 40, (1 << 63) - 1]), c).map(list),
        st.tuples(st.just("missing"), c).map(list), st.tuples(st.just("kind"), st.sampled_from([0, 5]), c).map(list),
        st.tuples(st.just("size"), gen.types(), c, st.sampled_from([-1, 1, 100, 1 << 20, 1 << 31, 1 << 40, 1 << 62])).map(list),
        st.tuples(st.just("dsize"), i, c, st.sampled_from([-1, 1, 100, 1 << 20, 1 << 31, 1 << 40, 1 << 62]), st.integers(0, 1)).map(list),
        st.tuples(st.just("bomb"), gen.types(), st.sampled_from([0, 1, 100])).map(list))
    return st.fixed_dictionaries({"ents": st.lists(ent, min_size=1, max_size=9), "idx": st.integers(1, 3), "piece": st.sampled_from([0, 0, 1, 100, 4096]),
                                  "wild": st.lists(st.tuples(i, st.sampled_from([0, 1, 5, 11, 12, 13, 40, 1 << 20, (1 << 31) - 1])).map(list), max_size=1),
                                  "swap": st.lists(st.tuples(i, i).map(list), max_size=2)})


def body_structure(case, ctx):
    from gitdb.db import PackedDB
    from gitdb.pack import PackEntity
    limit_memory()
    ctx.cleanup(unlimit_memory)
    n = len(case["ents"])
    shas, kinds = [], []
    for k, d in enumerate(case["ents"]):
        if d[0] == "ok":
            sha = ref.obj_id(ref.TYPES[d[1]], ref.content(d[2]))
            if sha in shas:
                sha = bytes([k]) * 20
        else:
            sha = ref.obj_id(b"blob", b"structure %d" % k)
        shas.append(sha)
    out = [b"PACK" + (2).to_bytes(4, "big") + n.to_bytes(4, "big")]
    pos = 12
    offs, base = [], [None] * n
    truth = {}              # index -> (type, content) of entries which are fine by themselves
    delta_of = {}
    for k, d in enumerate(case["ents"]):
        offs.append(pos)
        kind = d[0]
        pre, hdr, payload, hsize = b"", None, None, None
        if kind in ("ref", "ofs", "self", "raw-ofs", "missing", "dsize"):
            c = ref.content(d[-1] if kind != "dsize" else d[2])
            ins = [("i", c[o:o + 127]) for o in range(0, len(c), 127)]
            b = d[1] % n if kind in ("ref", "ofs", "dsize") else k if kind == "self" else None
            srcsize = 0
            if b is not None and b < k and b in truth:
                srcsize = len(truth[b][1])
            dst = len(c)
            if kind == "dsize":
                if d[4]:
                    dst = max(0, dst + d[3])
                else:
                    srcsize = max(0, srcsize + d[3])
            payload = ref.delta_bytes(srcsize, dst, ins)
            if kind in ("ofs",) and b < k or kind == "dsize" and b < k:
                hdr, pre = ref.OFS, ref.ofs_enc(pos - offs[b])
                base[k] = b
            elif kind == "self" and d[1] == "ofs":
                hdr, pre = ref.OFS, b"\0"
                base[k] = k
            elif kind == "raw-ofs":
                hdr, pre = ref.OFS, ref.ofs_enc(d[1])
            elif kind == "missing":
                hdr, pre = ref.REF, b"\x99" * 20
            else:
                hdr, pre = ref.REF, shas[b]
                base[k] = b
            delta_of[k] = c
            if kind in ("ref", "ofs") and b < k and b in truth:
                truth[k] = (truth[b][0], c)
        elif kind == "ok":
            hdr, payload = ref.TYPE_ID[ref.TYPES[d[1]]], ref.content(d[2])
            truth[k] = (ref.TYPES[d[1]], payload)
        elif kind == "kind":
            hdr, payload = d[1], ref.content(d[2])
        elif kind == "size":
            hdr, payload = ref.TYPE_ID[ref.TYPES[d[1]]], ref.content(d[2])
            hsize = max(0, len(payload) + d[3])
        else:
            hdr, payload, hsize = ref.TYPE_ID[ref.TYPES[d[1]]], bytes(3 << 20), d[2]
        e = ref.entry_header(hdr, len(payload) if hsize is None else hsize) + pre + ref.zenc(payload, None)
        out.append(e)
        pos += len(e)
    pack = b"".join(out)
    import hashlib
    pack += hashlib.sha1(pack).digest()
    ioffs = list(offs)
    moved = set()
    for i, v in case["wild"]:
        ioffs[i % n] = v
        moved.add(i % n)
    for i, j in case["swap"]:
        i, j = i % n, j % n
        if i != j and not moved & {i, j}:
            ioffs[i], ioffs[j] = ioffs[j], ioffs[i]
            moved |= {i, j}
    items = [(shas[k], 0, ioffs[k]) for k in range(n)]
    idx = ref.idx_v1(items, pack[-20:]) if case["idx"] == 1 else ref.idx_v2(items, pack[-20:], 0 if case["idx"] == 3 else 0x7fffffff)
    pd = os.path.join(ctx.dir, "pack")
    os.makedirs(pd)
    p = os.path.join(pd, "pack-" + pack[-20:].hex())
    put(p + ".pack", pack)
    put(p + ".idx", idx)

    def chain(k):
        """-> 'cycle', or the list of entries needed, with whether the index was consulted for moved ones"""
        seen = []
        while k is not None:
            if k in seen:
                return "cycle"
            seen.append(k)
            k = base[k]
        return seen
    db = PackedDB(pd)
    for k in list(range(n)) + list(range(n - 1, -1, -1)):
        i, s, h = examine(db, shas[k], case["piece"], case["ents"][k][0])
        require(h == ("ok", True), "%s is missing: %r", shas[k].hex(), h)
        c = chain(k)
        if c == "cycle":
            if not moved:
                require(i[0] == "error", "entry %d of a cyclic chain has info %r", k, i)
                require(s[0] == "error", "entry %d of a cyclic chain has content %s", k, short(s))
                ctx.label("cycle")
                ctx.nontrivial()
        elif not moved & set(c) and k in truth:
            t, data = truth[k]
            require(i == ("ok", (t, len(data))), "damage elsewhere changed entry %d: info %s", k, short(i))
            require(s == ("ok", (t, len(data), data)), "damage elsewhere changed entry %d: %s", k, short(s))
        else:
            ctx.nontrivial()
            ctx.label("%s: %s" % (case["ents"][k][0], "answered" if s[0] == "ok" else s[1]))
    whole(db)
    pack_level(p + ".pack", offs + ioffs)
    ent = PackEntity(p + ".pack")
    for k in range(n):
        for crc in (True, False):
            r = outcome(lambda: ent.is_valid_stream(shas[k], crc))
            if chain(k) == "cycle" and not moved and not crc:
                require(r != ("ok", True), "entry %d of a cyclic chain is valid", k)
        outcome(lambda: ent.collect_streams(shas[k]))


# ---------------------------------------------------------------- loose objects from scratch

def strategy_loose():
    head = st.one_of(
        st.sampled_from([b"", b"blob", b"blob ", b"blob 5", b"blob \0", b"blob 0\0", b"blob -1\0", b"blob -7\0", b"blob 1e3\0", b"blob 0x10\0", b" 5\0", b"blob  5\0", b"blob 5 \0", b"blob 5 5\0",
                         b"what 5\0", b"blob 99999999999999999999999999\0", b"blob 4294967296\0", b"blob 1_0\0", b"tree 5\0", b"\0", b"blob\x005\0", b"blob\n5\0", b"commit 1000000\0"]),
        st.tuples(st.sampled_from([b"blob", b"tree", b"commit", b"tag", b"x"]), st.integers(-5, 5000)).map(lambda t: t[0] + b" %d\0" % t[1]),
        st.binary(max_size=20))
    return st.fixed_dictionaries({"head": head, "body": st.one_of(gen.contents(3000, 30), st.sampled_from([["zero", 3000000, 0], ["zero", 9000, 0], ["rand", 9000, 1]])),
                                  "z": gen.zdescs(), "cut": st.one_of(st.none(), st.integers(0, 1000)), "tail": st.binary(max_size=6), "piece": st.sampled_from([0, 0, 1, 100, 4096]),
                                  "raw": st.one_of(st.none(), st.none(), st.none(), st.binary(max_size=30))})


def body_loose(case, ctx):
    from gitdb.db import GitDB, LooseObjectDB
    limit_memory()
    ctx.cleanup(unlimit_memory)
    root = ref.make_gitdir(os.path.join(ctx.dir, "r"))
    good = ref.content(["text", 700, 3])
    gsha = ref.obj_id(b"blob", good)
    ref.write_loose(root, gsha, ref.loose_bytes(b"blob", good))
    sha = gsha[:1] + b"\x42" * 19
    raw = ref.zenc(case["head"] + ref.content(case["body"]), case["z"])
    if case["cut"] is not None:
        raw = raw[:len(raw) * case["cut"] // 1000]
    raw += case["tail"]
    if case["raw"] is not None:
        raw = case["raw"]
    ref.write_loose(root, sha, raw)
    for db in (GitDB(root), LooseObjectDB(root)):
        i, s, h = examine(db, sha, case["piece"], "loose")
        ctx.label(s[1] if s[0] == "error" else "answered")
        ctx.nontrivial(s[0] == "error" or len(s[1][2]) != s[1][1])
        if s[0] == "ok" and case["piece"] == 0:
            # reading again from the start, in pieces
            s2 = outcome(lambda: read_all(db.stream(sha), 10, "loose"))
        i, s, h = examine(db, gsha, case["piece"], "loose")
        require(s == ("ok", (b"blob", len(good), good)), "a damaged neighbour changed %s", gsha.hex())
        require(sorted(bytes(x) for x in db.sha_iter()) == sorted([sha, gsha]), "enumeration")


def sections():
    return [Section("bytes", body, strategy, quick=2600, thorough=120000),
            Section("structure", body_structure, strategy_structure, quick=1500, thorough=60000),
            Section("loose", body_loose, strategy_loose, quick=1500, thorough=40000)]
