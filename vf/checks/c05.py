"""C05 Deltas are applied exactly or rejected."""
from hypothesis import strategies as st

from .. import gen, ref
from ..engine import HarnessError, Section, Violation, require, short

RULE = ("a case is a base, a chain of deltas (instructions with random legal byte encodings) and optionally one malformation; "
        "non-trivial = at least one copy and one insert instruction applied, or a delta the reference interpreter rejects")
ASSUMPTIONS = ["the reference interpreter in vf/ref.py implements the pack-format documentation; it is cross-checked against the constructive encoder in every valid case"]


def bases():
    return st.one_of(gen.contents(3000), gen.contents(140000),
                     st.tuples(st.sampled_from(["rand", "text", "mix"]), st.integers(65536, 200000), st.integers(0, 30)).map(list))


def chains(maxlen=5):
    return st.lists(st.fixed_dictionaries({"ops": gen.delta_ops(), "pad": gen.pads(), "z": gen.zdescs()}), min_size=1, max_size=maxlen)


def strategy_valid():
    return st.fixed_dictionaries({"base": bases(), "chain": chains(), "z": gen.zdescs(), "t": gen.types(),
                                  "mode": st.integers(0, 4), "n": st.integers(1, 5000)})


def strategy_big():
    # bases of more than 16 MiB, so that four byte offsets and three byte sizes are needed
    off = st.one_of(st.integers((1 << 24) - 3, 17 << 20), st.integers(0, 17 << 20))
    op = st.tuples(st.just("c"), off, st.one_of(st.integers(0, 70000), st.integers(65530, 65540), st.integers(1 << 16, 1 << 24)), st.integers(0, 255)).map(list)
    return st.fixed_dictionaries({"base": st.tuples(st.sampled_from(["rep", "mix"]), st.sampled_from([17 << 20, (17 << 20) + 11]), st.integers(0, 1)).map(list),
                                  "chain": st.lists(st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=4)}), min_size=1, max_size=2),
                                  "z": st.just({"l": 0}), "t": st.just(2), "mode": st.integers(0, 4), "n": st.integers(1, 5000)})


def make_streams(typ, base, z, deltas, zs):
    """deltas in application order"""
    from gitdb.base import OPackStream, ODeltaPackStream
    from gitdb.stream import DecompressMemMapReader
    out = []
    for d, dz in zip(reversed(deltas), reversed(zs)):
        out.append(ODeltaPackStream(0, 6, len(d), 1, DecompressMemMapReader(ref.zenc(d, dz), False, len(d))))
    out.append(OPackStream(0, ref.TYPE_ID[typ], len(base), DecompressMemMapReader(ref.zenc(base, z), False, len(base))))
    return out


def resolver(streams):
    from gitdb.stream import DeltaApplyReader
    return DeltaApplyReader.new(streams)


def read_resolved(case, r):
    mode = case.get("mode", 0)
    if mode == 0:
        size = r.size
        data = r.read()
    elif mode == 1:
        data = r.read()
        size = r.size
    elif mode == 2:
        size = r.size
        parts = []
        while True:
            p = r.read(case.get("n", 100))
            if not p:
                break
            parts.append(p)
        data = b"".join(parts)
    elif mode == 3:
        r.read(case.get("n", 100))
        r.seek(0)
        data = r.read()
        size = r.size
    else:
        size = r.size
        data = r.read(size + 10) if size else r.read()
    return size, data


def body_valid(case, ctx):
    typ = ref.TYPES[case["t"] % 4]
    base = ref.content(case["base"])
    cur = base
    deltas, zs = [], []
    ncopy = nins = 0
    for link in case["chain"]:
        instr = ref.make_instr(cur, link["ops"])
        res = ref.delta_result(cur, instr)
        d = ref.delta_bytes(len(cur), len(res), instr, link.get("pad", (0, 0)))
        if ref.apply_delta(cur, d) != res:
            raise HarnessError("reference encoder and interpreter disagree")
        deltas.append(d)
        zs.append(link.get("z"))
        ncopy += sum(1 for o in instr if o[0] == "c")
        nins += sum(1 for o in instr if o[0] == "i")
        cur = res
    ctx.nontrivial(ncopy > 0 and nins > 0)
    if len(deltas) > 1:
        ctx.label("chain>1")
    if not cur:
        ctx.label("empty result")
    if any(len(d) > 512 for d in deltas):
        ctx.label("delta>512 bytes")
    r = resolver(make_streams(typ, base, case.get("z"), deltas, zs))
    size, data = read_resolved(case, r)
    require(size == len(cur), "resolved size %r, expected %d", size, len(cur))
    require(bytes(data) == cur, "resolved content differs: %s", diff(bytes(data), cur))
    require(r.type == typ and r.type_id == ref.TYPE_ID[typ], "type %r", r.type)
    # the interpreter alone
    from gitdb.fun import apply_delta_data, msb_size
    d = deltas[0]
    i, _ = msb_size(d)
    i, _ = msb_size(d, i)
    out = []
    apply_delta_data(base, len(base), d[i:], len(d) - i, out.append)
    want = ref.apply_delta(base, d)
    require(b"".join(bytes(x) for x in out) == want, "apply_delta_data differs")


def diff(a, b):
    if len(a) != len(b):
        return "%d bytes instead of %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "first difference at %d" % i
    return "equal"


# ---------------------------------------------------------------- malformed

def strategy_bad():
    mut = st.one_of(
        st.tuples(st.just("cut"), st.integers(0, 400)),
        st.tuples(st.just("cutend"), st.integers(1, 40)),
        st.tuples(st.just("zero"), st.integers(0, 20)),
        st.tuples(st.just("src"), st.sampled_from([-1, 1, -2, 2, 5, 128, 1000, -100])),
        st.tuples(st.just("dst"), st.sampled_from([-1, 1, -2, 2, 5, 128, 1000, -100, 70000])),
        st.tuples(st.just("dstzero"), st.just(0)),
        st.tuples(st.just("oob"), st.integers(0, 20), st.sampled_from([0, 1, 2, 100, 65536, 1 << 20, (1 << 32) - 1]), st.sampled_from([1, 2, 100, 65536, 0xffffff])),
        st.tuples(st.just("append"), st.binary(min_size=1, max_size=4)),
        st.tuples(st.just("byte"), st.integers(0, 10000), st.integers(1, 255)),
        st.tuples(st.just("drop"), st.integers(0, 20)),
        st.tuples(st.just("dup"), st.integers(0, 20)),
        st.tuples(st.just("unterminated"), st.integers(0, 6)),
    ).map(list)
    return st.fixed_dictionaries({"base": st.one_of(gen.contents(300), gen.contents(70000)), "chain": chains(3), "z": gen.zdescs(), "t": gen.types(),
                                  "which": st.integers(0, 5), "mut": mut, "mode": st.integers(0, 4), "n": st.integers(1, 100)})


def mutate(base, instr, pad, mut):
    res = ref.delta_result(base, instr)
    good = ref.delta_bytes(len(base), len(res), instr, pad)
    k = mut[0]
    if k == "cut":
        return good[:mut[1] % (len(good) + 1)]
    if k == "cutend":
        return good[:max(0, len(good) - mut[1])]
    if k == "src":
        return ref.delta_bytes(max(0, len(base) + mut[1]), len(res), instr, pad)
    if k == "dst":
        return ref.delta_bytes(len(base), max(0, len(res) + mut[1]), instr, pad)
    if k == "dstzero":
        return ref.delta_bytes(len(base), 0, instr, pad)
    if k == "append":
        return good + mut[1]
    if k == "byte":
        b = bytearray(good)
        b[mut[1] % len(b)] ^= mut[2]
        return bytes(b)
    if k == "unterminated":
        return bytes([0x80 | (i + 1) for i in range(mut[1])])
    head = ref.varint_le(len(base), pad[0]) + ref.varint_le(len(res), pad[1])
    ops = [ref.delta_bytes(0, 0, [i])[2:] for i in instr]
    p = mut[1] % (len(ops) + 1)
    if k == "zero":
        ops.insert(p, b"\0")
    elif k == "oob":
        # a copy that leaves the base: it starts inside or outside of it; keep the stated size consistent
        off = min(len(base) + mut[2] - min(mut[2], mut[3]) // 2, 0xffffffff)
        size = mut[3]
        if off + size <= len(base):
            off = len(base)
        ops.insert(p, ref.copy_op(off, size))
        head = ref.varint_le(len(base)) + ref.varint_le(len(res) + size)
    elif k == "drop":
        if ops:
            del ops[p % len(ops)]
    elif k == "dup":
        if ops:
            ops.insert(p, ops[p % len(ops)])
    return head + b"".join(ops)


def body_bad(case, ctx):
    typ = ref.TYPES[case["t"] % 4]
    base = ref.content(case["base"])
    cur = base
    deltas, zs = [], []
    which = case["which"] % len(case["chain"])
    rejected = None
    lastsize = 0
    bad_ops = None
    for i, link in enumerate(case["chain"]):
        instr = ref.make_instr(cur, link["ops"])
        if i == which:
            d = mutate(cur, instr, link.get("pad", (0, 0)), case["mut"])
            bad_ops = (cur, d)
        else:
            d = ref.delta_bytes(len(cur), len(ref.delta_result(cur, instr)), instr, link.get("pad", (0, 0)))
        deltas.append(d)
        zs.append(link.get("z"))
        try:
            cur = ref.apply_delta(cur, d)
        except ValueError as e:
            rejected = "delta %d: %s" % (i, e)
            # the deltas which follow are made for the content the good delta would have produced
            cur = ref.delta_result(cur, instr)
    # a declared size beyond any memory is not a sensible input for this check
    for d in deltas:
        try:
            v, j = num(d, 0)
            w, j = num(d, j)
        except IndexError:
            continue
        if v > 1 << 26 or w > 1 << 26:
            ctx.label("skipped: huge declared size")
            return
    ctx.label("mut:%s" % case["mut"][0])
    streams = make_streams(typ, base, case.get("z"), deltas, zs)
    if rejected is None:
        ctx.label("mutant still well-formed")
        size, data = read_resolved(case, resolver(streams))
        require(size == len(cur) and bytes(data) == cur, "a well-formed delta chain gave a wrong result: %s", diff(bytes(data), cur))
        return
    ctx.nontrivial()
    ctx.label("rejected by the reference: " + rejected.split(": ")[1])
    try:
        r = resolver(streams)
    except Exception:
        r = None
    for attempt in range(3):
        # what was refused once is refused again
        if r is None:
            break
        try:
            size, data = read_resolved(dict(case, mode=case.get("mode", 0) + attempt), r)
        except Exception:
            continue
        raise Violation("malformed delta (%s) accepted at attempt %d, yielding %s" % (rejected, attempt + 1, short(bytes(data), 60)))
    # the interpreter alone must refuse instructions that are malformed in themselves
    src, d = bad_ops
    try:
        v, j = num(d, 0)
        w, j = num(d, j)
    except IndexError:
        return
    body = d[j:]
    try:
        ref.apply_delta(src, ref.varint_le(len(src)) + ref.varint_le(total(body)) + body)
    except ValueError:
        from gitdb.fun import apply_delta_data
        try:
            apply_delta_data(src, len(src), body, len(body), lambda x: None)
        except Exception:
            return
        raise Violation("apply_delta_data accepted malformed instructions (%s)" % rejected)


def num(d, i):
    v = s = 0
    while True:
        c = d[i]
        i += 1
        v |= (c & 0x7f) << s
        s += 7
        if not c & 0x80:
            return v, i


def total(body):
    """size the instructions would produce if all were inside their bounds"""
    i = t = 0
    while i < len(body):
        c = body[i]
        i += 1
        if c & 0x80:
            i += bin(c & 15).count("1")
            size = 0
            for k in range(3):
                if c & (0x10 << k):
                    if i < len(body):
                        size |= body[i] << (8 * k)
                    i += 1
            t += size or 0x10000
        else:
            t += c
            i += c
    return t


def strategy_deep():
    link = st.fixed_dictionaries({"ops": gen.delta_ops(3, 40), "pad": gen.pads(), "z": st.none()})
    return st.fixed_dictionaries({"base": gen.contents(2000), "chain": st.lists(link, min_size=10, max_size=60), "z": st.none(),
                                  "t": gen.types(), "mode": st.integers(0, 4), "n": st.integers(1, 500)})


def sections():
    return [Section("valid", body_valid, strategy_valid, quick=1600, thorough=60000),
            Section("malformed", body_bad, strategy_bad, quick=2400, thorough=100000),
            Section("deep", body_valid, strategy_deep, quick=80, thorough=4000),
            Section("big", body_valid, strategy_big, quick=16, thorough=400)]
