"""C06 Pack index lookups are exact."""
import os
import random

from hypothesis import strategies as st

from .. import ids as idgen, ref
from ..engine import HarnessError, Section, require, short

RULE = ("a case is a set of (id, crc, offset) with an index version; all accessors are compared with the sorted list for present and absent ids; "
        "non-trivial = at least two entries")
ASSUMPTIONS = ["the index bytes come from an independent writer, checked against git show-index in the 'git' section",
               "an index never contains one id twice"]

OFFS = [12, 13, 255, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, (1 << 40) + 7, (1 << 62) + 3, (1 << 63) - 1]


def strategy():
    return st.fixed_dictionaries({
        "set": idgen.ids_strategy(), "v": st.sampled_from([1, 2, 2, 2]), "offs": st.lists(st.one_of(st.sampled_from(OFFS), st.integers(12, 1 << 33)), max_size=10),
        "seed": st.integers(0, 1000), "wide": st.booleans(), "force": st.integers(0, 3), "psha": st.binary(min_size=20, max_size=20),
        "order": st.integers(0, 1000)})


def items_of(case):
    shas = idgen.expand(case["set"])
    r = random.Random(case["seed"])
    offs = []
    for o in case["offs"]:
        if o not in offs:
            offs.append(o)
    lim = 0xffffffff if case["v"] == 1 else (1 << 63) - 1
    offs = [o for o in offs if o <= lim]
    r.shuffle(offs)
    used = set(offs)
    nxt = 12
    while len(offs) < len(shas):
        nxt += 1 + r.getrandbits(12)
        o = nxt
        if case["wide"] and case["v"] == 2:
            o += 1 << 33
        if o not in used:
            offs.append(o)
            used.add(o)
    r.shuffle(offs)
    return [(s, r.choice((0, 0xffffffff, 0x80000000, r.getrandbits(32))), o) for s, o in zip(shas, offs)]


def index_bytes(case, items):
    if case["v"] == 1:
        return ref.idx_v1(items, case["psha"])
    r = random.Random(case["seed"] + 1)
    force = set()
    if case["force"]:
        force = {t[0] for t in items if r.randrange(4) < case["force"]}
    return ref.idx_v2(items, case["psha"], force=force)


def probes(items, seed):
    out = {bytes(20), b"\xff" * 20}
    r = random.Random(seed)
    shas = [t[0] for t in items]
    if len(shas) > 60:
        shas = r.sample(shas, 60) + shas[:2] + shas[-2:]
    for s in shas:
        v = int.from_bytes(s, "big")
        for d in (1, -1):
            w = v + d
            if 0 <= w <= idgen.MAX:
                out.add(w.to_bytes(20, "big"))
        out.add(s[:19] + bytes([s[19] ^ 0x10]))
        out.add(bytes([s[0] ^ 1]) + s[1:])
        out.add(s[:1] + bytes(19))
        out.add(s[:1] + b"\xff" * 19)
        out.add(s[:10] + bytes(10))
    for _ in range(5):
        out.add(r.randbytes(20))
    return out


def check(x, items, version, psha, isha, seed):
    items = sorted(items)
    n = len(items)
    require(x.version() == version, "version %r", x.version())
    require(x.size() == n, "size %r instead of %d", x.size(), n)
    require(bytes(x.packfile_checksum()) == psha, "pack checksum %s", short(x.packfile_checksum()))
    require(bytes(x.indexfile_checksum()) == isha, "index checksum %s", short(x.indexfile_checksum()))
    offs = list(x.offsets())
    require(offs == [t[2] for t in items], "offsets() = %s instead of %s", short(offs), short([t[2] for t in items]))
    for i, (sha, crc, off) in enumerate(items):
        if version == 1:
            crc = 0
        require(bytes(x.sha(i)) == sha, "sha(%d) = %s instead of %s", i, bytes(x.sha(i)).hex(), sha.hex())
        require(x.offset(i) == off, "offset(%d) = %r instead of %d", i, x.offset(i), off)
        if version == 2:
            require(x.crc(i) == crc, "crc(%d) = %r instead of %d", i, x.crc(i), crc)
        o, s, c = x.entry(i)
        require((o, bytes(s), c) == (off, sha, crc), "entry(%d) = %s", i, short((o, s, c)))
        k = x.sha_to_index(sha)
        require(k == i and k is not None, "sha_to_index(%s) = %r instead of %d", sha.hex(), k, i)
    present = {t[0] for t in items}
    for p in probes(items, seed):
        if p not in present:
            k = x.sha_to_index(p)
            require(k is None, "sha_to_index(%s) = %r for an absent id", p.hex(), k)


def body(case, ctx):
    from gitdb.pack import PackIndexFile
    items = items_of(case)
    data = index_bytes(case, items)
    path = os.path.join(ctx.dir, "pack-a.idx")
    with open(path, "wb") as f:
        f.write(data)
    x = PackIndexFile(path)
    first = case["order"] % 5
    # whichever accessor comes first initialises the rest
    if items:
        t = sorted(items)[-1]
        if first == 0:
            require(x.sha_to_index(t[0]) == len(items) - 1, "sha_to_index first")
        elif first == 1:
            require(x.entry(len(items) - 1)[0] == t[2], "entry first")
        elif first == 2:
            require(list(x.offsets())[-1] == t[2], "offsets first")
        elif first == 3:
            require(bytes(x.sha(len(items) - 1)) == t[0], "sha first")
    else:
        ctx.label("no entries")
    require(x.path() == path, "path")
    check(x, items, case["v"], case["psha"], data[-20:], case["seed"])
    ctx.label("v%d" % case["v"])
    if any(t[2] > 0x7fffffff for t in items):
        ctx.label("offsets beyond 31 bits")
    if any(t[2] > 0xffffffff for t in items):
        ctx.label("offsets beyond 32 bits")
    ctx.nontrivial(len(items) > 1)


def body_git(case, ctx):
    """git reads what the independent writer wrote"""
    items = sorted(items_of(case))
    data = index_bytes(case, items)
    p = ref.git(["show-index"], input=data, cwd=ctx.dir)
    got = []
    for l in p.stdout.decode().splitlines():
        f = l.split()
        got.append((bytes.fromhex(f[1]), int(f[2].strip("()"), 16) if len(f) > 2 else None, int(f[0])))
    want = [(t[0], t[1] if case["v"] == 2 else None, t[2]) for t in items]
    if got != want:
        raise HarnessError("git reads another index: %s / %s" % (short(got), short(want)))
    body(case, ctx)


def body_write(case, ctx):
    """indices written by gitdb"""
    import gitdb.pack  # noqa
    import sys
    from gitdb.pack import PackIndexFile
    IndexWriter = getattr(sys.modules["gitdb.pack"], "IndexWriter", None)
    if IndexWriter is None:
        ctx.label("skipped: no IndexWriter")
        return
    items = items_of(case)
    r = random.Random(case["order"])
    shuffled = list(items)
    r.shuffle(shuffled)
    w = IndexWriter()
    for sha, crc, off in shuffled:
        w.append(sha, crc, off)
    out = []
    sha = w.write(case["psha"], out.append)
    data = b"".join(bytes(b) for b in out)
    want = ref.idx_v2(items, case["psha"])
    if data != want:
        from .c05 import diff
        require(False, "the index written differs from git's: %s", diff(data, want))
    require(sha == data[-20:], "returned checksum %s", short(sha))
    path = os.path.join(ctx.dir, "pack-a.idx")
    with open(path, "wb") as f:
        f.write(data)
    check(PackIndexFile(path), items, 2, case["psha"], sha, case["seed"])
    ctx.nontrivial(len(items) > 1)


def versions(tier, seed):
    return [{"v": v, "n": n} for n in (0, 1, 5) for v in (0, 1, 3, 4, 255, 256, 0x200, 0x01000002, 0x80000002, 0xffffffff)]


def body_version(case, ctx):
    """an index of a version nobody knows isn't guessed at"""
    from gitdb.pack import PackIndexFile
    r = random.Random(case["v"])
    items = [(r.randbytes(20), r.getrandbits(32), 12 + 100 * i) for i in range(case["n"])]
    data = bytearray(ref.idx_v2(items, bytes(20)))
    data[4:8] = case["v"].to_bytes(4, "big")
    path = os.path.join(ctx.dir, "pack-a.idx")
    with open(path, "wb") as f:
        f.write(data)
    sha = items[0][0] if items else bytes(20)
    for what, fn in (("size", lambda x: x.size()), ("sha_to_index", lambda x: x.sha_to_index(sha)), ("offsets", lambda x: x.offsets()), ("version", lambda x: x.version()),
                     ("sha", lambda x: x.sha(0)), ("entry", lambda x: x.entry(0))):
        x = PackIndexFile(path)
        try:
            got = fn(x)
        except Exception:
            continue
        require(False, "%s() of an index of version %d gives %s", what, case["v"], short(got))
    ctx.nontrivial(case["n"] > 0)


def big_items(case):
    r = random.Random("big%d" % case["seed"])
    n = case["n"]
    shas = set()
    while len(shas) < n:
        b = r.randbytes(20)
        shas.add({0: b, 1: b"\x42" + b[1:], 2: bytes([b[0] & 1]) + bytes(16) + b[17:]}[case["mode"]])
    lim = (1 << 32) if case["v"] == 1 else (1 << 40)
    offs = set()
    while len(offs) < n:
        offs.add(r.randrange(12, lim) if r.random() < case["wide"] else r.randrange(12, 1 << 31))
    offs = list(offs)
    r.shuffle(offs)
    return [(s, r.getrandbits(32), o) for s, o in zip(sorted(shas), offs)]


def body_large(case, ctx):
    """more entries than 16 bit numbers or fan-out tables of small packs show"""
    from gitdb.pack import PackIndexFile
    items = big_items(case)
    psha = b"\7" * 20
    data = ref.idx_v1(items, psha) if case["v"] == 1 else ref.idx_v2(items, psha)
    path = os.path.join(ctx.dir, "pack-a.idx")
    if case["write"]:
        import sys
        IndexWriter = getattr(sys.modules["gitdb.pack"], "IndexWriter", None)
        if IndexWriter is not None:
            w = IndexWriter()
            order = list(items)
            random.Random(1).shuffle(order)
            for sha, crc, off in order:
                w.append(sha, crc, off)
            out = []
            w.write(psha, out.append)
            got = b"".join(bytes(b) for b in out)
            require(got == data, "an index of %d entries is written differently from git's", len(items))
    with open(path, "wb") as f:
        f.write(data)
    check(PackIndexFile(path), items, case["v"], psha, data[-20:], case["seed"])
    ctx.nontrivial()
    ctx.label("%d entries" % case["n"])


def large(tier, seed):
    sizes = [66000, 70001] if tier == "quick" else [65535, 65536, 66000, 70001, 140000, 600000]
    for i, n in enumerate(sizes):
        for v in (1, 2):
            yield {"n": n, "v": v, "mode": (i + v) % 3 if tier == "quick" else i % 3, "seed": seed % 1000, "wide": [0.3, 0.99][v & 1], "write": v == 2}


def sections():
    return [Section("large", body_large, enum=large, budget=400_000_000),
            Section("accessors", body, strategy, quick=10000, thorough=300000),
            Section("version", body_version, enum=versions),
            Section("git", body_git, strategy, quick=200, thorough=5000),
            Section("written", body_write, lambda: strategy().map(lambda c: dict(c, v=2)), quick=5000, thorough=150000)]
