"""C03 Object streams behave as read-only files for every read pattern."""
import os
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, Violation, require, short

RULE = ("a case is up to four open streams (loose, packed, delta-resolved, memory; generated content and zlib encoding) and a history of "
        "read(n)/read()/seek(0) on them; non-trivial = some stream returned data in at least two pieces or was rewound after a read")
ASSUMPTIONS = ["read(0) and negative sizes mean 'everything left' (documented behaviour of the readers)"]

KINDS = ["raw", "rawview", "new", "lazy", "file", "mem", "memraw", "pack", "packdb"]
TRAIL = [b"", b"\0", b"PACK", b"x\x9c" * 20, bytes(range(256)) * 3]


def source(maxn):
    return st.one_of(
        st.fixed_dictionaries({"k": st.sampled_from(KINDS[:7]), "t": gen.types(), "c": gen.contents(maxn), "z": gen.zdescs(),
                               "trail": st.integers(0, len(TRAIL) - 1)}),
        st.fixed_dictionaries({"k": st.sampled_from(KINDS[7:]), "i": st.integers(0, 10)}),
    )


def nums(maxn):
    return st.one_of(st.integers(1, 12), st.integers(1, 700), st.sampled_from([n for n in gen.SMALL_N + gen.MID_N + gen.BIG_N if 0 < n]),
                     st.integers(1, maxn + 10))


def strategy(maxn=70000, maxops=30):
    op = st.one_of(
        st.tuples(st.integers(0, 5), st.just("r"), nums(maxn)),
        st.tuples(st.integers(0, 5), st.just("r"), nums(maxn)),
        st.tuples(st.integers(0, 5), st.just("a"), st.sampled_from([0, -1, -7])),
        st.tuples(st.integers(0, 5), st.just("s"), st.just(0)),
        st.tuples(st.integers(0, 5), st.just("x"), st.tuples(st.sampled_from([1, 2, 100, -1]), st.sampled_from([0, 0, 1, 2])).map(list)),
        st.tuples(st.integers(0, 5), st.just("o"), st.just(0)),
        st.tuples(st.integers(0, 5), st.just("q"), st.integers(0, 3)),
        st.tuples(st.integers(0, 5), st.just("d"), nums(maxn)),
    ).map(list)

    def s():
        return st.fixed_dictionaries({"src": st.lists(source(maxn), min_size=1, max_size=3), "pack": gen.pack_descs(6, maxn),
                                      "ops": gen.histories(op, 1, maxops), "piece": nums(maxn), "at": st.integers(0, 1)})
    return s


def body(case, ctx):
    from gitdb.stream import DecompressMemMapReader
    from gitdb.db import LooseObjectDB, MemoryDB, PackedDB
    from gitdb.base import IStream
    from gitdb.pack import PackEntity
    need = {s["k"] for s in case["src"]}
    bp = entity = packdb = ldb = mdb = None
    if need & {"pack", "packdb"}:
        bp = ref.build_pack(case["pack"])
        pdir = os.path.join(ctx.dir, "pack")
        ppath = ref.write_pack_files(bp, pdir)
        entity = PackEntity(ppath)
        packdb = PackedDB(pdir)
    if "file" in need:
        ldb = LooseObjectDB(os.path.join(ctx.dir, "loose"))
    if need & {"mem", "memraw"}:
        mdb = MemoryDB()
    stored = {}

    def opens(i):
        """-> (content, reader, compressed size or None)"""
        s = case["src"][i]
        k = s["k"]
        ctx.label(k)
        if k in ("pack", "packdb"):
            e = bp.ents[s["i"] % len(bp.ents)]
            o = (entity if k == "pack" else packdb).stream(e.sha)
            require(o.type == e.type and o.size == len(e.content), "%s: reported %r %r instead of %r %d", k, o.type, o.size, e.type, len(e.content))
            if e.kind in (6, 7):
                ctx.label("delta depth %d" % min(3, bp.depth[e.sha]))
            return e.content, o.stream, (len(e.raw) if e.kind < 5 else None)
        typ = ref.TYPES[s["t"]]
        c = ref.content(s["c"])
        sha = ref.obj_id(typ, c)
        trail = TRAIL[s["trail"]]
        if k in ("raw", "rawview"):
            z = ref.zenc(c, s["z"])
            b = z + trail
            return c, DecompressMemMapReader(memoryview(b) if k == "rawview" else b, False, len(c)), len(z)
        z = ref.loose_bytes(typ, c, s["z"])
        if k == "new":
            t, n, r = DecompressMemMapReader.new(z + trail)
            require(t == typ and n == len(c), "header parsed as %r %r instead of %r %d", t, n, typ, len(c))
            return c, r, len(z)
        if k == "lazy":
            return c, DecompressMemMapReader(z + trail, False), len(z)
        if k == "file":
            if sha not in stored:
                ref.write_loose(ldb.root_path(), sha, z)
                stored[sha] = len(z)
            o = ldb.stream(sha)
            n = stored[sha]
        elif k == "mem":
            if (k, sha) not in stored:
                mdb.store(IStream(typ, len(c), BytesIO(c)))
                stored[k, sha] = 1
            o = mdb.stream(sha)
            n = None
        else:
            if (k, sha) not in stored:
                mdb.store(IStream(typ, len(c), BytesIO(z), sha))
                stored[k, sha] = 1
            o = mdb.stream(sha)
            n = None
        require(o.type == typ and o.size == len(c), "%s: reported %r %r instead of %r %d", k, o.type, o.size, typ, len(c))
        return c, o.stream, n

    op_streams = []     # [content, reader, zlen, position]

    def do_open(i):
        op_streams.append(list(opens(i)) + [0, 0, i])

    def read(s, n, total):
        """n: argument, total: what must come back"""
        c, r = s[0], s[1]
        d = r.read(*n)
        want = c[s[3]:s[3] + total]
        require(len(d) == len(want), "read(%s) at %d of %d returned %d bytes instead of %d (%s)", ",".join(map(str, n)), s[3], len(c), len(d), len(want), case["src"][s[5]]["k"])
        require(bytes(d) == want, "read(%s) at %d of %d returned wrong bytes (%s)", ",".join(map(str, n)), s[3], len(c), case["src"][s[5]]["k"])
        s[3] += len(want)
        if want:
            s[4] += 1
            if s[4] > 1:
                ctx.nontrivial()
        if s[3] == len(c) and s[2] is not None and (case["at"] or total == 0):
            m = r.compressed_bytes_read()
            require(m == s[2], "%d compressed bytes reported after a full read, but there are %d (%s)", m, s[2], case["src"][s[5]]["k"])

    for i in range(len(case["src"])):
        do_open(i)
    for si, op, n in case["ops"]:
        s = op_streams[si % len(op_streams)]
        if op == "r":
            read(s, (n,), n)
        elif op == "a":
            if n:
                read(s, (n,), len(s[0]))
            else:
                read(s, (), len(s[0]))
        elif op == "s":
            s[1].seek(0)
            if s[3]:
                ctx.nontrivial()
            s[3] = 0
        elif op == "x":
            # other positions are refused (or reached), in any case nothing else happens
            try:
                s[1].seek(*n)
            except Exception:
                pass
            else:
                s[3] = min(len(s[0]), max(0, [0, s[3], len(s[0])][n[1]] + n[0]))
        elif op == "q":
            # asking for what a stream hasn't got says so, and does nothing else
            name = ["nosuchattribute", "fileno", "name", "__len__"][n]
            try:
                getattr(s[1], name)
            except AttributeError:
                pass
            except Exception as e:
                raise Violation("asking for the attribute %s raises %s (%s)" % (name, type(e).__name__, case["src"][s[5]]["k"]))
        elif op == "o":
            if len(op_streams) < 5:
                do_open(s[5])
        elif op == "d":
            drain(s, max(n, len(s[0]) // 60 + 1), read)
    for s in op_streams:
        s[1].seek(0)
        s[3] = 0
        drain(s, max(case["piece"], len(s[0]) // 60 + 1), read)


def drain(s, n, read):
    while s[3] < len(s[0]):
        read(s, (n,), n)
    read(s, (n,), n)
    read(s, (), 0)


def sections():
    return [Section("small", body, strategy(600, 25), quick=6000, thorough=200000),
            Section("histories", body, strategy(70000, 30), quick=3000, thorough=100000),
            Section("large", body, strategy(1100000, 12), quick=160, thorough=6000)]
