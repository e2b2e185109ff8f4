"""C11 A database answers as the union of its parts, consistently."""
import os

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import Section, require, short

RULE = ("a case is a set of objects, their distribution over loose files, packs and a directed acyclic graph of alternates, and a sequence of queries to "
        "databases of every kind; non-trivial = an object is in two parts, or only in an alternate, and an absent id was queried")
ASSUMPTIONS = ["alternates have no cycles", "the content of the directories doesn't change during a case (that is C12)"]


def strategy(maxobj, maxops, bursts=(0, 2, 30)):
    def s():
        obj = st.tuples(gen.types(), gen.contents(400, 30)).map(list)
        some = st.lists(st.integers(0, 40), max_size=8)
        alt = st.tuples(st.sampled_from(["abs", "abs", "abs", "rel", "missing", "file", "bare", "blank", "hash", "twice"]), st.integers(0, 5)).map(list)
        node = st.fixed_dictionaries({
            "loose": some, "packs": st.lists(st.tuples(some, st.integers(0, 1023), st.integers(1, 3)).map(list), max_size=3),
            "packdir": st.booleans(), "alts": st.lists(alt, max_size=3)})
        q = st.tuples(st.sampled_from(["has", "in", "info", "stream", "stream", "read", "iter", "size", "entities", "abbrev"]), st.integers(0, 12), st.integers(0, 60),
                      st.integers(0, 500)).map(list)
        burst = st.tuples(st.just("burst"), st.integers(0, 12), st.lists(st.integers(0, 60), min_size=1, max_size=6), st.sampled_from(list(bursts))).map(list)
        return st.fixed_dictionaries({
            "objs": st.lists(obj, min_size=1, max_size=maxobj), "nodes": st.lists(node, min_size=1, max_size=4),
            "name": st.integers(0, len(tree.ROOTNAMES) - 1), "sort": st.sampled_from([0, 0, 1, 2, 3, 5, 7]),
            "foreign": st.one_of(st.just(0), st.just(0), st.integers(0, 63)), "ops": gen.histories(st.one_of(q, q, q, burst), 0, maxops)})
    return s


class Node:
    pass


def put_foreign(n, bits, objs):
    """files in an object directory which are none of its objects or packs, as other programs leave them"""
    def put(data, *names):
        p = os.path.join(n.root, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with open(p, "wb") as f:
                f.write(data)
    sha, t, c = objs[bits % len(objs)]
    h, data = sha.hex(), ref.loose_bytes(t, c)
    if bits & 1:
        put(data, "tmp_obj_Ab12Cd")
        put(data, h[:2], "tmp_obj_Ab12Cd")
        put(data, h[:2], ".nfs" + "0" * 24)
    if bits & 2:            # as long as an object's name
        put(data, h[:2], "z" * 38)
        put(data, h[:2], h[2:-5] + ".temp")
    if bits & 4:
        put(data, "zz", "4" * 38)
        put(data, h[2:])
        put(data, "g" + h[:1], h[2:])
    if bits & 8:            # not at the place of an object
        put(data, "sub", h[:2], h[2:])
        put(data, "info", h[:2], h[2:])
        put(data, h[:2], h[2:4], h[4:])
        put(data, h[:2], h[:2], "0" * 38)
    if bits & 16 and n.packdir:
        for x in ("pack-%s.keep" % ("1" * 40), "tmp_pack_x", "pack-%s.idx" % ("2" * 40), "x.pack", "pack-%s.rev" % ("2" * 40), "multi-pack-index", "pack-.pack.tmp"):
            put(b"x", "pack", x)
    if bits & 32:
        put(data, h[:2], h[2:] + "0" * 24)          # an id of the length of sha256
        put(data, h[:2], h[2:-1])


def build(case, ctx):
    """-> objects, nodes with .root .loose .packs (sets) .alts (nodes)"""
    objs = tree.resolve(case["objs"])
    nodes = []
    top = os.path.join(ctx.dir, tree.ROOTNAMES[case["name"]])
    for i, d in enumerate(case["nodes"]):
        n = Node()
        n.root = os.path.join(top, "n%d" % i)
        nodes.append(n)
    for i, d in enumerate(case["nodes"]):
        n = nodes[i]
        os.makedirs(n.root)
        n.loose = set()
        for k in d["loose"]:
            sha, t, c = objs[k % len(objs)]
            n.loose.add(sha)
            ref.write_loose(n.root, sha, ref.loose_bytes(t, c, {"l": k % 10}))
        n.packs, n.counts = [], 0
        n.packdir = d["packdir"] or bool(d["packs"])
        if n.packdir:
            os.makedirs(os.path.join(n.root, "pack"))
        names = set()
        for ids, how, v in d["packs"]:
            pick = []
            for k in ids:
                o = objs[k % len(objs)]
                if o not in pick:
                    pick.append(o)
            if not pick and how % 2:
                continue
            bp = tree.make_pack(pick, how, v)
            if bp.packsha not in names:     # the same pack again
                names.add(bp.packsha)
                ref.write_pack_files(bp, os.path.join(n.root, "pack"))
                n.packs.append(set(bp.objs))
        lines, n.alts = [], []
        for kind, to in d["alts"]:
            if kind in ("abs", "rel", "twice"):
                if i + 1 < len(nodes):
                    t = nodes[i + 1 + to % (len(nodes) - i - 1)]
                    if t in n.alts:
                        continue
                    n.alts.append(t)
                    lines.append(os.path.relpath(t.root, n.root) if kind == "rel" else t.root)
                    if kind == "twice":
                        lines.append(t.root)
            elif kind == "missing":
                lines.append(os.path.join(top, "missing%d" % to))
            elif kind == "file":
                p = os.path.join(top, "file%d-%d" % (i, to))
                with open(p, "w") as f:
                    f.write("x")
                lines.append(p)
            elif kind == "bare":
                p = os.path.join(top, "bare%d-%d" % (i, to))
                os.makedirs(p, exist_ok=True)
                lines.append(p)
            elif kind == "blank":
                lines.append("")
            else:
                lines.append("# %s" % n.root)
        n.altfile = None
        if d["alts"]:
            os.makedirs(os.path.join(n.root, "info"))
            n.altfile = os.path.join(n.root, "info", "alternates")
            with open(n.altfile, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write("".join(l + "\n" for l in lines)[:None if i % 2 else -1 if lines and lines[-1] else None])
    for i, n in enumerate(nodes):
        if case.get("foreign", 0):
            put_foreign(n, case["foreign"] if not i else case["foreign"] ^ i, objs)
    for n in reversed(nodes):
        n.own = set(n.loose).union(*n.packs)
        n.alt_known = set().union(*[a.known for a in n.alts])
        n.known = n.own | n.alt_known
        n.mult = len(n.loose) + sum(map(len, n.packs)) + sum(a.mult for a in n.alts)
        n.alt_mult = sum(a.mult for a in n.alts)
    return objs, nodes


def body(case, ctx):
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    from gitdb.exc import BadObject
    objs, nodes = build(case, ctx)
    content = {s: (t, c) for s, t, c in objs}
    if case.get("sort") and hasattr(PackedDB, "_sort_interval"):
        # the packs are put in another order after this many queries
        old = PackedDB._sort_interval
        ctx.cleanup(lambda: setattr(PackedDB, "_sort_interval", old))
        PackedDB._sort_interval = case["sort"]
    dbs = []
    for i, n in enumerate(nodes):
        dbs.append(("git%d" % i, GitDB(n.root), n.known, n.mult))
        dbs.append(("loose%d" % i, LooseObjectDB(n.root), n.loose, len(n.loose)))
        if n.packdir:
            dbs.append(("packs%d" % i, PackedDB(os.path.join(n.root, "pack")), set().union(*n.packs), sum(map(len, n.packs))))
        if n.altfile:
            dbs.append(("alternates%d" % i, ReferenceDB(n.altfile), n.alt_known, n.alt_mult))
    ids = [s for s, _, _ in objs]
    # absent ids: close to existing ones
    for s in list(ids):
        ids += [s[:19] + bytes([s[19] ^ 1]), bytes([s[0] ^ 1]) + s[1:], s[:1] + bytes(19)]
    ids = list(dict.fromkeys(ids + [bytes(20), b"\xff" * 20]))
    absent = [False]

    def raises(what, name, sha, fn):
        try:
            fn(sha)
        except BadObject as e:
            absent[0] = True
            require(sha in e.args or sha.hex() in str(e), "%s: %s of the absent %s raises %r, which doesn't name it", name, what, sha.hex(), e)
            str(e)
        else:
            require(False, "%s: %s of the absent %s answers", name, what, sha.hex())

    def query(k, dbi, sha, arg):
        name, db, known, mult = dbi
        if k == "has":
            require(db.has_object(sha) is (sha in known), "%s: has_object(%s) is not %r", name, sha.hex(), sha in known)
        elif k == "in":
            require((sha in db) is (sha in known), "%s: '%s in db' is not %r", name, sha.hex(), sha in known)
        elif k == "info":
            if sha not in known:
                return raises(k, name, sha, db.info)
            i = db.info(sha)
            t, c = content[sha]
            require((bytes(i.binsha), i.type, i.size) == (sha, t, len(c)), "%s: info of %s is %r, not %s %d", name, sha.hex(), tuple(i), t, len(c))
        elif k in ("stream", "read"):
            if sha not in known:
                return raises(k, name, sha, db.stream)
            s = db.stream(sha)
            t, c = content[sha]
            require((bytes(s.binsha), s.type, s.size) == (sha, t, len(c)), "%s: stream of %s is %r, not %s %d", name, sha.hex(), tuple(s)[:3], t, len(c))
            if k == "read":
                if arg:
                    d = s.read(arg)
                    require(bytes(d) == c[:arg], "%s: the first %d bytes of %s differ", name, arg, sha.hex())
            else:
                require(bytes(s.read()) == c, "%s: content of %s differs", name, sha.hex())
        elif k == "iter":
            l = [bytes(x) for x in db.sha_iter()]
            require(set(l) == known, "%s: sha_iter has %s", name, short(sorted(x.hex() for x in set(l) ^ known)))
            require(len(l) == mult, "%s: sha_iter yields %d ids, not %d", name, len(l), mult)
        elif k == "size":
            require(db.size() == mult, "%s: size is %r, not %d", name, db.size(), mult)
        elif k == "entities" and hasattr(db, "entities"):
            e = db.entities()
            require(sum(x.index().size() for x in e) == mult, "%s: entities", name)
        elif k == "abbrev" and hasattr(db, "partial_to_complete_sha_hex"):
            if sha in known:
                require(bytes(db.partial_to_complete_sha_hex(sha.hex())) == sha, "%s: full id %s does not resolve", name, sha.hex())

    for op in case["ops"]:
        dbi = dbs[op[1] % len(dbs)]
        ctx.label(op[0])
        if op[0] == "burst":
            for r in range(op[3]):
                for k in op[2]:
                    query(("has", "info", "stream")[r % 3] if r < 4 else "info", dbi, ids[k % len(ids)], 0)
        else:
            query(op[0], dbi, ids[op[2] % len(ids)], op[3])
    for r, dbi in enumerate(dbs):
        for n, sha in enumerate(ids):
            for k in (("has", "info", "in", "stream") if (r + n) % 2 else ("stream", "in", "has", "info")):
                query(k, dbi, sha, 0)
        query("size", dbi, None, 0)
        query("iter", dbi, None, 0)
    m = [n.mult > len(n.known) for n in nodes]
    if any(m):
        ctx.label("an object in several parts")
    if any(n.alt_known - n.own for n in nodes):
        ctx.label("an object only in an alternate")
    ctx.nontrivial(absent[0] and (any(m) or any(n.alt_known - n.own for n in nodes)))


def sections():
    return [Section("union", body, strategy(8, 10), quick=2600, thorough=60000),
            Section("bursts", body, strategy(8, 12, (100, 501, 700)), quick=130, thorough=4000)]
