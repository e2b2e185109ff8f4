"""C07 Abbreviated ids resolve uniquely or are reported."""
import os

from hypothesis import strategies as st

from .. import ids as idgen, ref
from ..engine import Section, Violation, require, short

RULE = ("a case is a clustered set of ids spread over loose files, packs and nested alternates, and a list of abbreviations (chosen ones and those "
        "around the longest common prefix of neighbours); non-trivial = at least one abbreviation matched two or more ids and one exactly one")
ASSUMPTIONS = ["abbreviations have at least four digits and are lower case", "packs are represented by their indices, the objects themselves are not read"]

PLACES = 8      # 0 main loose, 1 2 main packs, 3 alternate loose, 4 alternate pack, 5 nested alternate loose, 6 7 its packs


def strategy():
    q = st.tuples(st.integers(0, 60), st.integers(4, 40), st.sampled_from(["same", "last", "first", "zeros", "ff"]), st.booleans()).map(list)
    return st.fixed_dictionaries({"set": idgen.ids_strategy(14, (0, 0, 0, 5, 40)), "place": st.lists(st.integers(0, (1 << PLACES) - 1), min_size=1, max_size=12),
                                  "q": st.lists(q, max_size=12), "v": st.lists(st.integers(1, 2), min_size=5, max_size=5),
                                  "only": st.sampled_from([0xff, 0xff, 0x01, 0x02, 0x06, 0x07, 0x1f])})


def put_pack(directory, shas, v, n):
    items = [(s, 0, 12 + i) for i, s in enumerate(shas)]
    psha = bytes([n]) * 20
    os.makedirs(directory, exist_ok=True)
    base = os.path.join(directory, "pack-" + psha.hex())
    with open(base + ".pack", "wb") as f:
        f.write(b"PACK" + (2).to_bytes(4, "big") + len(shas).to_bytes(4, "big") + bytes(100) + psha)
    with open(base + ".idx", "wb") as f:
        f.write(ref.idx_v1(items, psha) if v == 1 else ref.idx_v2(items, psha))


def ask(fn, what):
    """-> id, 'none' or 'many'"""
    from gitdb.exc import BadObject, AmbiguousObjectName
    try:
        return fn()
    except BadObject as e:
        str(e)
        return "none"
    except AmbiguousObjectName as e:
        str(e)
        return "many"


def expected(prefix, shas):
    m = [s for s in shas if s.hex().startswith(prefix)]
    return "none" if not m else m[0] if len(m) == 1 else "many"


def lcp(a, b):
    i = 0
    while i < len(a) and a[i] == b[i]:
        i += 1
    return i


def body(case, ctx):
    from gitdb.db import GitDB, LooseObjectDB, PackedDB
    shas = idgen.expand(case["set"])
    if not shas:
        shas = [b"\x12\x34" * 10]
    pl = case["place"]
    where = [[] for _ in range(PLACES)]
    for i, s in enumerate(shas):
        m = pl[i % len(pl)] & case["only"]
        for k in range(PLACES):
            if m >> k & 1:
                where[k].append(s)
    roots = [os.path.join(ctx.dir, n) for n in ("main", "alt", "nested")]
    for r in roots:
        os.makedirs(os.path.join(r, "pack"))
        os.makedirs(os.path.join(r, "info"))
    for a, b in ((0, 1), (1, 2)):
        with open(os.path.join(roots[a], "info", "alternates"), "w") as f:
            f.write(roots[b] + "\n")
    for root, loose, packs in ((roots[0], 0, (1, 2)), (roots[1], 3, (4,)), (roots[2], 5, (6, 7))):
        for s in where[loose]:
            ref.write_loose(root, s, b"x\x01")
        for k in packs:
            if where[k]:
                put_pack(os.path.join(root, "pack"), where[k], case["v"][k % 5], k)
    everything = {s for w in where for s in w}
    scopes = [("loose", LooseObjectDB(roots[0]), set(where[0])), ("packs", PackedDB(os.path.join(roots[0], "pack")), set(where[1]) | set(where[2])),
              ("git", GitDB(roots[0]), everything), ("alternate", GitDB(roots[1]), set().union(*where[3:]))]
    prefixes = {}
    srt = sorted(everything)
    pairs = list(zip(srt, srt[1:]))
    step = max(1, len(pairs) // 10)
    for a, b in pairs[::step]:
        n = lcp(a.hex(), b.hex())
        for l in (n - 1, n, n + 1, n + 2):
            if 4 <= l <= 40:
                prefixes[a.hex()[:l]] = 1
                prefixes[b.hex()[:l]] = 1
    for k, l, how, as_bytes in case["q"]:
        h = shas[k % len(shas)].hex()
        if how == "last":
            h = h[:l - 1] + "%x" % (int(h[l - 1], 16) ^ 1) + h[l:]
        elif how == "first":
            h = "%x" % (int(h[0], 16) ^ 8) + h[1:]
        elif how == "zeros":
            h = h[:l // 2] + "0" * 40
        elif how == "ff":
            h = h[:l // 2] + "f" * 40
        prefixes[h[:l]] = 1
    seen = set()
    for n, p in enumerate(prefixes):
        for name, db, scope in scopes:
            want = expected(p, scope)
            if name == "packs":
                b = bytes.fromhex(p + "0" * (len(p) % 2))
                got = ask(lambda: db.partial_to_complete_sha(b, len(p)), name)
            elif n % 3 == 1:
                got = ask(lambda: db.partial_to_complete_sha_hex(p.encode()), name)
            else:
                got = ask(lambda: db.partial_to_complete_sha_hex(p), name)
            seen.add("one" if isinstance(want, bytes) else want)
            if isinstance(got, memoryview):
                got = bytes(got)
            if got != want:
                show = lambda v: v.hex() if isinstance(v, bytes) else repr(v)
                require(False, "%s: %s (%d digits) resolves to %s instead of %s", name, p, len(p), show(got), show(want))
    # each index alone
    for i, ent in enumerate(scopes[1][1].entities()):
        x = ent.index()
        scope = [bytes(x.sha(i)) for i in range(x.size())]
        for p in prefixes:
            b = bytes.fromhex(p + "0" * (len(p) % 2))
            got = ask(lambda: x.partial_sha_to_index(b, len(p)), "index")
            got = "none" if got is None else got
            want = expected(p, scope)
            want = scope.index(want) if isinstance(want, bytes) else want
            require(got == want, "index: %s (%d digits) resolves to %r instead of %r", p, len(p), got, want)
    for s in seen:
        ctx.label(s)
    ctx.nontrivial("one" in seen and "many" in seen)
    if len(everything) < sum(map(len, where)):
        ctx.label("an id in several places")


def sections():
    return [Section("resolve", body, strategy, quick=7000, thorough=80000)]
