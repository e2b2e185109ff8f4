"""C19 Merging a delta chain equals applying its deltas one by one."""
from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, require
from .c05 import make_streams, diff

RULE = ("a case is a base and a chain of well-formed deltas with random legal encodings; non-trivial = at least two deltas, "
        "and at least one copy of the topmost delta is resolved through a lower one (result not made of inserts only)")


def strategy():
    link = st.fixed_dictionaries({"ops": gen.delta_ops(10, 300), "pad": gen.pads(), "z": gen.zdescs()})
    return st.fixed_dictionaries({"base": st.one_of(gen.contents(500), gen.contents(100000)), "chain": st.lists(link, min_size=1, max_size=8),
                                  "z": st.none(), "buf": st.integers(0, 2)})


def strategy_inserts():
    # many adjacent inserts, which the aggregation concatenates
    ops = st.lists(st.one_of(st.tuples(st.just("i"), st.binary(min_size=1, max_size=5)).map(list),
                             st.tuples(st.just("c"), st.integers(0, 60), st.integers(0, 12), st.just(0)).map(list)), max_size=14)
    link = st.fixed_dictionaries({"ops": ops})
    return st.fixed_dictionaries({"base": st.binary(min_size=1, max_size=60), "chain": st.lists(link, min_size=1, max_size=6),
                                  "z": st.none(), "buf": st.integers(0, 2)})


def body(case, ctx):
    from gitdb.fun import connect_deltas
    base = ref.content(case["base"])
    cur = base
    deltas, zs = [], []
    instr = []
    for link in case["chain"]:
        instr = ref.make_instr(cur, link["ops"])
        res = ref.delta_result(cur, instr)
        deltas.append(ref.delta_bytes(len(cur), len(res), instr, link.get("pad", (0, 0))))
        zs.append(link.get("z"))
        cur = res
    ctx.nontrivial(len(deltas) > 1 and any(o[0] == "c" for o in instr))
    streams = make_streams(b"blob", base, None, deltas, zs)[:-1]
    dcl = connect_deltas(streams if case["buf"] else iter(streams))
    chunks = list(dcl)
    if cur:
        require(dcl.rbound() == len(cur), "rbound %r, the topmost delta states %d", dcl.rbound(), len(cur))
        require(dcl.lbound() == 0, "lbound %r", dcl.lbound())
        require(dcl.size() == len(cur), "size %r, expected %d", dcl.size(), len(cur))
        pos = 0
        for c in chunks:
            require(c.to == pos and c.ts > 0, "chunks do not tile: expected a chunk at %d, got one at %r of size %r", pos, c.to, c.ts)
            require(c.rbound() == c.to + c.ts, "rbound of a chunk")
            pos += c.ts
        require(pos == len(cur), "chunks cover %d of %d bytes", pos, len(cur))
        dcl.check_integrity(len(cur))
    else:
        require(sum(c.ts for c in chunks) == 0, "chunks for an empty result")
    if len(chunks) > 1:
        ctx.label("several chunks")
    if any(c.has_data() and c.ts > 127 for c in chunks):
        ctx.label("concatenated insert")
    out = []
    src = base if case["buf"] != 2 else memoryview(base)
    dcl.apply(src, lambda b: out.append(bytes(b)))
    got = b"".join(out)
    require(got == cur, "merged chain yields something else: %s", diff(got, cur))
    # applying twice gives the same
    out = []
    dcl.apply(src, lambda b: out.append(bytes(b)))
    require(b"".join(out) == cur, "second application differs")
    if cur:
        dcl.compress()
        out = []
        dcl.apply(src, lambda b: out.append(bytes(b)))
        require(b"".join(out) == cur, "compressing the merged list changed its result")


def sections():
    return [Section("merge", body, strategy, quick=1600, thorough=60000),
            Section("inserts", body, strategy_inserts, quick=2000, thorough=60000)]
