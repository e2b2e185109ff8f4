"""C09 Verification accepts intact objects and never damaged ones."""
import hashlib
import os
import random
import resource
import struct
import zlib

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import HarnessError, Section, Violation, require, short

RULE = ("a case is a pack and one or more changes to it (all byte positions of small packs, random positions of larger ones, swapped or wrong index "
        "entries) and every object is verified both ways; non-trivial = a damaged object was verified, or an intact delta")
ASSUMPTIONS = ["an independent, lenient resolver decides whether a damaged object still has its id"]


def limit_memory():
    """a damaged size must not take the machine down"""
    try:
        with open("/proc/self/statm") as f:
            cur = int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (cur + (3 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (OSError, ValueError):
        pass


def unlimit_memory():
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


def lenient(data, offsets, off, depth=0):
    """-> (type, content) of the entry at off as anyone would read it; ValueError if that's impossible"""
    if depth > 50 or not 12 <= off < len(data):
        raise ValueError("chain")
    try:
        t, size, d = ref.parse_entry_header(data, off)
        base = None
        if t == ref.OFS:
            c = data[d]
            d += 1
            v = c & 0x7f
            while c & 0x80:
                c = data[d]
                d += 1
                v = ((v + 1) << 7) + (c & 0x7f)
            base = off - v
        elif t == ref.REF:
            base = offsets.get(data[d:d + 20])
            d += 20
            if base is None:
                raise ValueError("no base")
        elif t not in ref.ID_TYPE:
            raise ValueError("kind")
    except IndexError:
        raise ValueError("cut")
    if size > 1 << 24:
        raise ValueError("size")
    z = zlib.decompressobj()
    out = b""
    try:
        # bytewise, so that an error in the checksum does not take the content away
        buf = data[d:]
        out = bytearray()
        i = 0
        while len(out) < size and i < len(buf) and not z.eof:
            out += z.decompress(buf[i:i + 16])
            i += 16
    except zlib.error:
        z = zlib.decompressobj()
        out = bytearray()
        try:
            for i in range(len(buf)):
                out += z.decompress(buf[i:i + 1])
        except zlib.error:
            pass
    if len(out) < size:
        raise ValueError("short")
    out = bytes(out[:size])
    if base is None:
        return ref.ID_TYPE[t], out
    typ, b = lenient(data, offsets, base, depth + 1)
    return typ, ref.apply_delta(b, out)


def verify(ent, sha, crc):
    """-> True / 'not true'"""
    try:
        return ent.is_valid_stream(sha, use_crc=crc)
    except Exception as e:
        return "%s" % type(e).__name__


class WriteAt:
    def __init__(self, ctx):
        self.d, self.n = ctx.dir, 0

    def put(self, pack, idx):
        self.n += 1
        p = os.path.join(self.d, "pack-%d" % self.n)
        with open(p + ".pack", "wb") as f:
            f.write(pack)
        with open(p + ".idx", "wb") as f:
            f.write(idx)
        return p + ".pack"

    def drop(self, path):
        os.unlink(path)
        os.unlink(path[:-4] + "idx")


def depends(bp, e):
    """offsets of the entries e is made of"""
    out = {e.offset}
    while e.kind in (6, 7):
        e = e.delta_info if e.kind == ref.OFS else [x for x in bp.ents if x.sha == e.delta_info][0]
        out.add(e.offset)
    return out


def check_damaged(bp, pack, path, hit, ctx, what):
    """hit: set of offsets of entries with changed bytes"""
    from gitdb.pack import PackEntity
    ent = PackEntity(path)
    offsets = {e.sha: e.offset for e in bp.ents}
    for e in bp.ents:
        if bp.version == 2:
            r = verify(ent, e.sha, True)
            if e.offset in hit:
                require(r is not True, "%s: the damaged entry at %d is valid by checksum", what, e.offset)
            else:
                require(r is True, "%s: the intact entry at %d is not valid by checksum: %r", what, e.offset, r)
        r = verify(ent, e.sha, False)
        if depends(bp, e) & hit:
            ctx.nontrivial()
            if r is True:
                try:
                    t, c = lenient(pack, offsets, e.offset)
                    same = ref.obj_id(t, c) == e.sha
                except ValueError:
                    same = False
                require(same, "%s: the object at %d is valid by id, but its content has changed", what, e.offset)
                ctx.label("damage without effect on the content")
            else:
                ctx.label("by id: " + str(r))
        else:
            require(r is True, "%s: the undamaged object at %d is not valid by id: %r", what, e.offset, r)


def strategy_intact():
    return st.fixed_dictionaries({"pack": gen.pack_descs(8, 9000), "order": st.integers(0, 50), "pre": st.integers(0, 3)})


def body_intact(case, ctx):
    from gitdb.pack import PackEntity
    from gitdb.exc import UnsupportedOperation, BadObject
    bp = ref.build_pack(case["pack"])
    ent = PackEntity(WriteAt(ctx).put(bp.pack, bp.idx))
    ents = list(bp.ents)
    random.Random(case["order"]).shuffle(ents)
    if case["pre"] == 1:
        for e in ents:
            ent.stream(e.sha).read(3)
    elif case["pre"] == 2:
        list(ent.info_iter())
    for _ in range(2 if case["pre"] == 3 else 1):
        for e in ents:
            if bp.version == 1:
                try:
                    r = ent.is_valid_stream(e.sha, use_crc=True)
                    require(False, "verification by checksum with a version 1 index gave %r", r)
                except UnsupportedOperation:
                    pass
            else:
                r = ent.is_valid_stream(e.sha, use_crc=True)
                require(r is True, "intact object of kind %d is not valid by checksum: %r", e.kind, r)
            r = ent.is_valid_stream(e.sha)
            require(r is True, "intact object of kind %d is not valid by id: %r", e.kind, r)
            ctx.nontrivial(e.kind in (6, 7))
    absent = bytes(19) + b"\1"
    for crc in (False, True):
        try:
            r = ent.is_valid_stream(absent, use_crc=crc)
            require(False, "verification of an absent object gave %r", r)
        except BadObject:
            pass
        except UnsupportedOperation:
            require(crc and bp.version == 1, "UnsupportedOperation")


def strategy_all():
    return st.fixed_dictionaries({"pack": gen.pack_descs(4, 60, idx=(2, 2, 3, 1)), "xor": st.integers(0, 1000), "pos": st.none()})


def body_all(case, ctx):
    bp = ref.build_pack(case["pack"])
    r = random.Random(case["xor"])
    w = WriteAt(ctx)
    limit_memory()
    ctx.cleanup(unlimit_memory)
    for e in bp.ents:
        rng = range(e.offset, e.end)
        if len(rng) > 150:      # the header and the ends in full
            rng = sorted(set(list(rng[:40]) + list(rng[-20:]) + [e.offset + r.randrange(len(rng)) for _ in range(90)]))
        for pos in rng:
            b = bytearray(bp.pack)
            b[pos] ^= r.choice((1, 2, 4, 8, 16, 32, 64, 128, 255, 1 + r.randrange(255)))
            b = bytes(b)
            path = w.put(b, bp.idx)
            check_damaged(bp, b, path, {e.offset}, ctx, "byte %d" % pos)
            w.drop(path)
    from gitdb.util import mman
    mman.collect()


def strategy_big():
    obj = st.fixed_dictionaries({"t": gen.types(), "z": st.sampled_from([{"l": 0}, {"l": 1}]),
                                 "c": st.tuples(st.sampled_from(["rand", "mix"]), st.sampled_from([4095999, 4096000, 5000000, 8192001, 100]), st.integers(0, 3)).map(list)})
    ch = st.tuples(st.integers(0, 20), st.one_of(st.integers(0, 999999), st.sampled_from([0, 1, 999999])), st.integers(1, 255), st.integers(0, 4)).map(list)
    return st.fixed_dictionaries({"pack": st.fixed_dictionaries({"objs": st.lists(obj, min_size=1, max_size=2), "order": st.just([]), "idx": st.just(2)}),
                                  "ch": st.lists(ch, min_size=0, max_size=1)})


def strategy_random():
    ch = st.tuples(st.integers(0, 20), st.one_of(st.integers(0, 999999), st.sampled_from([0, 1, 999999])), st.integers(1, 255), st.integers(0, 4)).map(list)
    return st.fixed_dictionaries({"pack": gen.pack_descs(8, 70000, idx=(2, 2, 3, 1)), "ch": st.lists(ch, min_size=1, max_size=3)})


def body_random(case, ctx):
    bp = ref.build_pack(case["pack"])
    limit_memory()
    ctx.cleanup(unlimit_memory)
    b = bytearray(bp.pack)
    hit = set()
    for k, f, x, n in case["ch"]:
        # one entry, one position in it, up to four consecutive bytes: surely seen by a CRC if it is the only change of that entry
        e = bp.ents[k % len(bp.ents)]
        if e.offset in hit:
            continue
        pos = e.offset + f * (e.end - e.offset) // 1000000
        for i in range(pos, min(pos + max(1, n), e.end)):
            b[i] ^= x
        hit.add(e.offset)
    b = bytes(b)
    check_damaged(bp, b, WriteAt(ctx).put(b, bp.idx), hit, ctx, "changes %s" % case["ch"])


def strategy_index():
    return st.fixed_dictionaries({"pack": gen.pack_descs(8, 3000, idx=(1, 2, 2, 3)), "how": st.sampled_from(["crc", "swap", "rename", "offset", "offset"]), "k": st.integers(0, 20), "x": st.integers(0, 31)})


def body_index(case, ctx):
    """the pack is intact, the index says something else"""
    from gitdb.pack import PackEntity
    bp = ref.build_pack(case["pack"])
    items = [[e.sha, e.crc, e.offset] for e in bp.ents]
    k = case["k"] % len(items)
    bad_crc, bad_sha, may = set(), set(), set()
    if case["how"] == "crc":
        items[k][1] ^= 1 << case["x"]
        bad_crc.add(items[k][0])
    elif case["how"] == "swap":
        j = (k + 1) % len(items)
        if j == k:
            return
        # two ids point to each other's entries
        items[k][0], items[j][0] = items[j][0], items[k][0]
        bad_sha |= {items[k][0], items[j][0]}
    elif case["how"] == "offset":
        # an entry starts somewhere else, so that it and the one before it have other extents
        offs = sorted(e.offset for e in bp.ents) + [len(bp.pack) - 20]
        off = items[k][2]
        i = offs.index(off)
        x = case["x"]
        new = (offs + [offs[i] + 1, offs[i] - 1, (offs[i] + offs[i + 1]) // 2, 0, 12, len(bp.pack) - 20, len(bp.pack), len(bp.pack) + 5, 0xfffffff])[x % (len(offs) + 9)]
        if new == off:
            return
        items[k][2] = new
        bad_crc.add(items[k][0])
        if new:                 # 0 stands for the first entry
            bad_sha.add(items[k][0])
        may = set(bp.objs)
    else:
        # an id nothing in the pack has
        sha = bytearray(items[k][0])
        sha[case["x"] % 20] ^= 1 << case["x"] % 8
        sha = bytes(sha)
        if sha in bp.objs:
            return
        items[k][0] = sha
        bad_sha.add(sha)
    if case["how"] != "crc" and any(e.kind == ref.REF for e in bp.ents):
        ctx.label("skipped: reference deltas find other bases")
        return
    idx = ref.idx_v1(items, bp.packsha) if bp.version == 1 else ref.idx_v2(items, bp.packsha)
    ent = PackEntity(WriteAt(ctx).put(bp.pack, idx))
    limit_memory()
    ctx.cleanup(unlimit_memory)
    ctx.nontrivial()
    ctx.label(case["how"])
    for sha, crc, off in items:
        if bp.version == 2:
            r = verify(ent, sha, True)
            if sha in bad_crc:
                require(r is not True, "an object with another checksum than recorded is valid by checksum")
            elif sha in may:
                pass            # its extent may have changed
            else:
                require(r is True, "valid by checksum: %r", r)
        r = verify(ent, sha, False)
        if sha in bad_sha:
            require(r is not True, "an object with another id is valid by id")
        elif sha in may:
            pass
        else:
            require(r is True, "valid by id: %r", r)


def sizes_enum(tier, seed):
    """entries which take exactly so many bytes of the pack"""
    base = [1000 * 4096, 2000 * 4096, 1 << 20, 1 << 16, 8192, 4096, 512] + ([3000 * 4096] + [1 << k for k in range(9, 24)] + [10 ** k for k in range(3, 8)] if tier == "thorough" else [])
    for n in base:
        for d in (-1, 0, 1, 2):
            for last in (True, False):
                if tier == "thorough" or not last or n % (1000 * 4096) == 0:
                    yield {"n": n + d, "last": last, "seed": seed % 1000}


def sizes_body(case, ctx):
    """an entry of the given length, made of stored blocks"""
    from gitdb.pack import PackEntity
    n = case["n"]
    size = n - 40 - 5 * (n // 65535)
    while True:         # as many blocks as it takes to fill up
        hdr = ref.entry_header(3, size)
        rest = n - len(hdr) - 2 - 4 - size
        if rest >= 5 * -(-size // 65535) and rest % 5 == 0:
            break
        size += 1 if rest > 5 * -(-size // 65535) else -1
    nblocks = rest // 5
    c = ref.content(["rand", size, case["seed"]])
    raw, pos = [b"\x78\x01"], 0
    for i in range(nblocks):
        k = min(65535, -(-(size - pos) // (nblocks - i)))
        raw.append(struct.pack("<BHH", i == nblocks - 1, k, k ^ 0xffff) + c[pos:pos + k])
        pos += k
    raw.append(struct.pack(">L", zlib.adler32(c)))
    entry = hdr + b"".join(raw)
    if len(entry) != n or pos != size or zlib.decompress(entry[len(hdr):]) != c:
        raise HarnessError("the entry has %d bytes instead of %d" % (len(entry), n))
    other = ref.entry_header(3, 5) + zlib.compress(b"other")
    ents = [(ref.obj_id(b"blob", b"other"), other, b"other"), (ref.obj_id(b"blob", c), entry, c)]
    if not case["last"]:
        ents.reverse()

    at = WriteAt(ctx)

    def write(change=None):
        body = b"PACK" + struct.pack(">LL", 2, 2)
        items = []
        for s, e, _ in ents:
            items.append((s, zlib.crc32(e), len(body)))
            body += e
        if change is not None:
            o = [x for x in items if x[0] == ref.obj_id(b"blob", c)][0][2] + change
            body = body[:o] + bytes([body[o] ^ 0x10]) + body[o + 1:]
        body += hashlib.sha1(body).digest()
        return at.put(body, ref.idx_v2(items, body[-20:]))
    path = write()
    ent = PackEntity(path)
    for s, _, cc in ents:
        for crc in (True, False):
            r = verify(ent, s, crc)
            require(r is True, "an intact object whose entry takes %d bytes isn't valid by %s: %r", n, "checksum" if crc else "id", r)
        require(bytes(ent.stream(s).read()) == cc, "content of an object whose entry takes %d bytes", n)
    sha = ref.obj_id(b"blob", c)
    for pos in sorted({n - 1, n - 2, n // 2, 4096000, 4095999, 8192000, 8191999}):
        if len(hdr) < pos < n:
            ent = PackEntity(write(pos))
            r = verify(ent, sha, True)
            require(r is not True, "an entry of %d bytes, byte %d of which is damaged, is valid by checksum", n, pos)
    ctx.nontrivial()


def far_enum(tier, seed):
    """packs with objects around these offsets"""
    for b in [[1 << 31], [1 << 32]] if tier == "quick" else [[1 << 30], [1 << 31], [1 << 32], [1 << 31, 1 << 32], [3 << 30, 5 << 30]]:
        for last in (0, 1, 3):
            yield {"bounds": b, "last": last, "seed": seed % 1000, "trailer": tier != "quick"}


def far_body(case, ctx):
    from gitdb.pack import PackEntity
    from . import c04
    fs = os.statvfs(ctx.dir)
    if fs.f_bavail * fs.f_frsize < (3 << 30):
        ctx.label("skipped: no space")
        return
    path = os.path.join(ctx.dir, "pack-far.pack")
    ents = []           # id, offset, end, is filler

    def put(f, c, kind=3, extra=b"", data=None):
        off = f.tell()
        f.write(ref.entry_header(kind, len(c if data is None else data)) + extra + ref.zenc(c if data is None else data))
        ents.append((ref.obj_id(b"blob", c), off, f.tell(), False))
        return off
    with open(path, "wb") as f:
        f.write(b"PACK" + struct.pack(">LL", 2, 0))
        a = ref.content(["rand", 900, case["seed"]])
        a_off = put(f, a)
        for i, b in enumerate(case["bounds"]):
            off = f.tell()
            n = c04.zeros_for(b - 3000 - off)
            f.write(ref.entry_header(3, n))
            c04.stored_zeros(f, n)
            ents.append((c04.sha_zeros(n), off, f.tell(), True))
            put(f, ref.content(["rand", max(0, b - f.tell() - 700), case["seed"] + 1 + i]))
            put(f, ref.content(["rand", 1500, case["seed"] + 11 + i]))       # across the boundary
            if not ents[-1][1] < b < ents[-1][2]:
                raise HarnessError("layout: %r, %d" % (ents[-1], b))
            for j in range(case["last"]):
                if j == 1:
                    instr = [("i", b"far %d" % i), ("c", 0, len(a), 0)]
                    c = ref.delta_result(a, instr)
                    put(f, c, 6, ref.ofs_enc(f.tell() - a_off), ref.delta_bytes(len(a), len(c), instr))
                else:
                    put(f, ref.content(["text", 2000 + j, case["seed"] + 21 + i]))
        end = f.tell()
        f.seek(8)
        f.write(struct.pack(">L", len(ents)))
    h = hashlib.sha1()
    items = []
    with open(path, "r+b") as f:
        if case["trailer"]:
            left = end
            while left:
                x = f.read(min(left, 1 << 20))
                left -= len(x)
                h.update(x)
        for sha, off, stop, filler in ents:
            crc = 0
            if not filler or case["trailer"]:
                f.seek(off)
                while off < stop:
                    x = f.read(min(1 << 20, stop - off))
                    off += len(x)
                    crc = zlib.crc32(x, crc)
            items.append((sha, crc))
        f.seek(end)
        f.write(h.digest())
    items = [(sha, crc, e[1]) for (sha, crc), e in zip(items, ents)]

    def index():
        with open(path[:-4] + "idx", "wb") as f:
            f.write(ref.idx_v2(items, h.digest()))
    index()
    ent = PackEntity(path)
    for sha, off, stop, filler in ents:
        for crc in (True, False):
            if not filler or crc and case["trailer"]:
                r = verify(ent, sha, crc)
                require(r is True, "an intact object in bytes %d to %d of its pack isn't valid by %s: %r", off, stop, "checksum" if crc else "id", r)
    for i, (sha, off, stop, filler) in enumerate(ents):
        if filler:
            continue
        pos = (off + 2, (off + stop) // 2, stop - 1)[(i + case["seed"]) % 3]
        with open(path, "r+b") as f:
            f.seek(pos)
            x = f.read(1)
            f.seek(pos)
            f.write(bytes([x[0] ^ 0x20]))
        r = verify(PackEntity(path), sha, True)
        require(r is not True, "the object in bytes %d to %d of its pack, byte %d of which is damaged, is valid by checksum", off, stop, pos)
        with open(path, "r+b") as f:
            f.seek(pos)
            f.write(x)
    ctx.nontrivial()


def sections():
    return [Section("intact", body_intact, strategy_intact, quick=4000, thorough=60000),
            Section("index", body_index, strategy_index, quick=2000, thorough=20000),
            Section("random", body_random, strategy_random, quick=4000, thorough=60000),
            Section("sizes", sizes_body, enum=sizes_enum, quick=1, thorough=1),
            Section("far", far_body, enum=far_enum, quick=1, thorough=1),
            Section("big", body_random, strategy_big, quick=32, thorough=600),
            Section("all", body_all, strategy_all, quick=300, thorough=4000, budget=400_000_000)]
