"""C10 Walking a pack visits every entry once, in order, and ends."""
import os

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, require, short
from .c09 import limit_memory, unlimit_memory

RULE = ("a case is a pack (generated entries, encodings and delta kinds) written without an index, a start entry and a way of consuming the "
        "iterator; non-trivial = at least two entries were visited")
ASSUMPTIONS = ["termination is judged by a counted work budget, not by time"]


def strategy(max_objs=12, maxn=3000):
    extra = st.lists(st.one_of(
        st.fixed_dictionaries({"dup": st.integers(0, 20)}),
        st.fixed_dictionaries({"empty": gen.types(), "z": gen.zdescs()}),
        st.fixed_dictionaries({"thin": st.integers(0, 9), "ops": gen.delta_ops(4, 30), "z": gen.zdescs()})), max_size=3)

    def s():
        return st.fixed_dictionaries({"pack": gen.pack_descs(max_objs, maxn), "extra": extra, "at": st.lists(st.integers(0, 30), min_size=3, max_size=3),
                                      "start": st.integers(0, 30), "mode": st.integers(0, 4), "n": st.one_of(st.integers(1, 20), st.integers(1, 5000)),
                                      "ver": st.sampled_from([2, 2, 2, 3])})
    return s


def build(case):
    """entries in file order, including exact duplicates, further empty objects and deltas with a base which isn't in the pack"""
    bp = ref.build_pack(case["pack"])
    ents = list(bp.ents)
    for x, at in zip(case["extra"], case["at"]):
        e = ref.PackEnt()
        if "dup" in x:
            o = ents[x["dup"] % len(ents)]
            if o.kind == ref.OFS:
                continue
            e.kind, e.data, e.raw, e.delta_info = o.kind, o.data, o.raw, o.delta_info
        elif "empty" in x:
            e.kind, e.data, e.delta_info = ref.TYPE_ID[ref.TYPES[x["empty"]]], b"", None
            e.raw = ref.zenc(b"", x["z"])
        else:
            base = ref.content(["text", 50, x["thin"]])
            instr = ref.make_instr(base, x["ops"])
            e.kind, e.delta_info = ref.REF, ref.obj_id(b"blob", base)
            e.data = ref.delta_bytes(len(base), len(ref.delta_result(base, instr)), instr)
            e.raw = ref.zenc(e.data, x["z"])
        ents.insert(at % (len(ents) + 1), e)
    pos = {id(e): i for i, e in enumerate(ents)}
    return ents, ref.pack_bytes(ents, case["ver"])


def check_meta(o, e, what):
    require(o.pack_offset == e.offset, "%s: offset %r instead of %d", what, o.pack_offset, e.offset)
    require(o.type_id == e.kind, "%s at %d: kind %r instead of %d", what, e.offset, o.type_id, e.kind)
    require(o.size == len(e.data), "%s at %d: size %r instead of %d", what, e.offset, o.size, len(e.data))
    if e.kind == ref.OFS:
        require(o.delta_info == e.offset - e.delta_info.offset, "%s at %d: delta distance %r instead of %d", what, e.offset, o.delta_info, e.offset - e.delta_info.offset)
    elif e.kind == ref.REF:
        require(bytes(o.delta_info) == e.delta_info, "%s at %d: delta base %s", what, e.offset, short(bytes(o.delta_info)))
    else:
        require(o.type == ref.ID_TYPE[e.kind], "%s at %d: type %r", what, e.offset, o.type)


def check_read(o, e, mode, n, what):
    if mode % 2:
        parts = []
        n = max(n, len(e.data) // 200 + 1)
        while True:
            d = o.read(n)
            if not d:
                break
            parts.append(d)
            require(len(d) <= n, "%s at %d: read(%d) returned %d bytes", what, e.offset, n, len(d))
        data = b"".join(parts)
    else:
        data = o.read()
    require(bytes(data) == e.data, "%s at %d: packed data differs (%d bytes, expected %d)", what, e.offset, len(data), len(e.data))
    m = o.stream.compressed_bytes_read()
    require(m == len(e.raw), "%s at %d: %d compressed bytes instead of %d", what, e.offset, m, len(e.raw))


def body(case, ctx):
    from gitdb.pack import PackFile
    ents, data = build(case)
    path = os.path.join(ctx.dir, "pack-x.pack")
    with open(path, "wb") as f:
        f.write(data)
    p = PackFile(path)
    mode = case["mode"]
    require(p.size() == len(ents) and p.version() == case["ver"], "size %r, version %r", p.size(), p.version())
    require(bytes(p.checksum()) == data[-20:], "checksum")
    start = case["start"] % (len(ents) + 1)
    if start == 0:
        it, want = p.stream_iter(), ents
    elif start == len(ents):
        it, want = p.stream_iter(ents[0].offset), ents
    else:
        it, want = p.stream_iter(ents[start].offset), ents[start:]
    for e in want:
        if not e.data:
            ctx.label("empty entry")
        ctx.label("kind %d" % e.kind)
    got = []
    it2 = p.stream_iter() if mode == 3 else None
    for e in want:
        o = next(it, None)
        require(o is not None, "iteration ends before the entry at %d", e.offset)
        check_meta(o, e, "entry")
        if mode in (0, 1):
            check_read(o, e, mode, case["n"], "entry")
        elif mode == 2:
            o.read(case["n"])           # left in the middle
        elif mode == 3:
            e2 = ents[len(got)]
            o2 = next(it2, None)
            require(o2 is not None, "second iteration ends early")
            check_meta(o2, e2, "entry of a second iterator")
            o2.read(case["n"])
        got.append(o)
    o = next(it, None)
    require(o is None, "iteration yields another entry at %r after the last one", o and o.pack_offset)
    if len(want) > 1:
        ctx.nontrivial()
    for o, e in zip(got, want):
        if mode in (0, 1, 2):
            o.stream.seek(0)
        check_read(o, e, mode, case["n"], "kept entry")
        check_meta(p.info(e.offset), e, "info")
        s = p.stream(e.offset)
        check_meta(s, e, "stream")
        check_read(s, e, mode + 1, case["n"], "stream")


def body_empty(case, ctx):
    from gitdb.pack import PackFile
    path = os.path.join(ctx.dir, "pack-x.pack")
    with open(path, "wb") as f:
        f.write(ref.pack_bytes([]))
    p = PackFile(path)
    require(p.size() == 0 and list(p.stream_iter()) == [], "a pack without entries")


def strategy_damaged():
    ch = st.tuples(st.integers(0, 20), st.one_of(st.integers(0, 3), st.integers(0, 999)), st.integers(1, 255)).map(list)
    return st.fixed_dictionaries({"case": strategy(8, 600)(), "ch": st.lists(ch, min_size=1, max_size=3), "cut": st.sampled_from([0, 0, 0, 1, 5, 19, 20, 21, 40, 500]),
                                  "fill": st.booleans(), "n": st.integers(1, 700)})


def body_damaged(case, ctx):
    """the walk ends, and yields nothing which isn't complete"""
    from gitdb.pack import PackFile
    ents, data = build(case["case"])
    b = bytearray(data)
    first = len(b)
    for k, at, x in case["ch"]:
        e = ents[k % len(ents)]
        pos = min(e.offset + at % max(1, e.end - e.offset), len(b) - 1)
        b[pos] ^= x
        first = min(first, e.offset)
    if case["cut"]:
        b = b[:max(32, len(b) - case["cut"])]
        first = min(first, max([e.offset for e in ents if e.offset < len(b) - 20] or [0]))
    if case["fill"]:
        import hashlib
        b[-20:] = hashlib.sha1(bytes(b[:-20])).digest()
    path = os.path.join(ctx.dir, "pack-x.pack")
    with open(path, "wb") as f:
        f.write(b)
    limit_memory()
    ctx.cleanup(unlimit_memory)
    n = last = 0
    error = None
    it = PackFile(path).stream_iter()
    while True:
        try:
            o = next(it, None)
        except Exception as e:
            error = e
            break
        if o is None:
            break
        require(o.pack_offset > last, "the walk goes back from %d to %d", last, o.pack_offset)
        last = o.pack_offset
        if n < len(ents) and ents[n].end <= first:
            check_meta(o, ents[n], "intact entry")
            require(bytes(o.read()) == ents[n].data, "the data of the intact entry at %d differs", last)
        else:
            got = o.read() if n % 2 else b"".join(iter(lambda: o.read(max(case["n"], o.size // 100)), b""))
            require(len(got) == o.size, "the entry at %d states %d bytes, its stream yields %d", last, o.size, len(got))
        n += 1
    intact = len([e for e in ents if e.end <= first])
    require(n >= intact, "the walk ends after %d entries, %d are intact (%r)", n, intact, error)
    ctx.nontrivial(intact > 0)
    ctx.label("ends with an error" if error is not None else "all entries can be walked")


def sections():
    return [Section("walk", body, strategy(), quick=12000, thorough=300000),
            Section("larger", body, strategy(6, 300000), quick=400, thorough=20000),
            Section("large", body, strategy(3, 8500000), quick=40, thorough=1000),
            Section("damaged", body_damaged, strategy_damaged, quick=4000, thorough=100000),
            Section("none", body_empty, enum=lambda tier, seed: [{}])]
