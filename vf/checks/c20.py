"""C20 Object headers encode and decode exactly for every size."""
import mmap
import os
import zlib

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, Violation, require

RULE = ("a case is one header or number (kind/type, size or value, position, container, encoding); non-trivial = more than one header "
        "byte is needed; the two-byte section enumerates all 65536 file beginnings")


def big_sizes():
    powers = [1 << k for k in range(0, 63)] + [10 ** k for k in range(0, 19)]
    near = sorted({p + d for p in powers for d in (-1, 0, 1) if p + d >= 0} | {(1 << 63) - 1})
    return st.one_of(st.sampled_from(near), st.integers(0, 1 << 20), st.integers(0, (1 << 63) - 1), st.integers(1 << 31, 1 << 34))


def as_buf(kind, b, ctx):
    k = kind % 4
    if k == 0:
        return b
    if k == 1:
        return memoryview(b)
    if k == 2:
        return bytearray(b)
    m = mmap.mmap(-1, max(1, len(b)))
    m.write(b)
    ctx.cleanup(m.close)
    return m


def st_packhdr():
    return st.fixed_dictionaries({"kind": st.sampled_from([1, 2, 3, 4, 6, 7]), "size": big_sizes(), "tail": st.binary(max_size=12), "buf": st.integers(0, 3),
                                  "pad": st.sampled_from([0, 0, 0, 1, 2])})


def body_packhdr(case, ctx):
    from gitdb.fun import create_pack_object_header, pack_object_header_info
    kind, size = case["kind"], case["size"]
    want = ref.entry_header(kind, size)
    ctx.nontrivial(len(want) > 1)
    got = bytes(create_pack_object_header(kind, size))
    require(got == want, "header of kind %d size %d: %s instead of %s", kind, size, got.hex(), want.hex())
    hdr = want
    if case["pad"]:
        hdr = want[:-1] + bytes([want[-1] | 0x80]) + b"\x80" * (case["pad"] - 1) + b"\0"
        ctx.label("redundant digits")
    t, s, o = pack_object_header_info(as_buf(case["buf"], hdr + case["tail"], ctx))
    require((t, s, o) == (kind, size, len(hdr)), "parsed header %s of kind %d size %d as %r", hdr.hex(), kind, size, (t, s, o))


def st_loosehdr():
    return st.fixed_dictionaries({"t": gen.types(), "size": big_sizes(), "str": st.booleans(), "z": gen.zdescs(), "c": gen.contents(20000), "buf": st.integers(0, 3)})


def body_loosehdr(case, ctx):
    from gitdb.fun import loose_object_header, loose_object_header_info
    from gitdb.stream import DecompressMemMapReader
    typ, size = ref.TYPES[case["t"]], case["size"]
    want = typ + b" " + str(size).encode() + b"\0"
    ctx.nontrivial(size > 9)
    got = bytes(loose_object_header(typ.decode() if case["str"] else typ, size))
    require(got == want, "loose header %r instead of %r", got, want)
    c = ref.content(case["c"])
    z = case["z"]
    if z:
        z = dict(z, w=15)
    raw = ref.zenc(want + c, z)
    t, s = loose_object_header_info(as_buf(case["buf"], raw, ctx))
    require((bytes(t), s) == (typ, size), "loose header %r parsed as %r", want, (t, s))
    if len(want) + len(c) > 8192:
        ctx.label("longer than the header buffer")
    t, s, stream = DecompressMemMapReader.new(as_buf(case["buf"], raw, ctx))
    require((bytes(t), s) == (typ, size), "stream reports %r for header %r", (t, s), want)


def st_msb():
    return st.fixed_dictionaries({"v": big_sizes(), "pad": st.sampled_from([0, 0, 1, 2]), "pre": st.binary(max_size=40), "post": st.binary(max_size=8),
                                  "w": big_sizes(), "buf": st.integers(0, 3), "cut": st.booleans()})


def body_msb(case, ctx):
    from gitdb.fun import msb_size
    a = ref.varint_le(case["v"], case["pad"])
    b = ref.varint_le(case["w"])
    pre = case["pre"]
    ctx.nontrivial(len(a) > 1 and len(pre) > 0)
    if case["cut"]:
        # no terminating byte: must be refused, wherever it starts
        data = pre + bytes(x | 0x80 for x in a)
        try:
            r = msb_size(as_buf(case["buf"] % 3, data, ctx), len(pre))
        except Exception:
            return
        raise Violation("an unterminated number was read as %r" % (r,))
    data = pre + a + b + case["post"]
    o, v = msb_size(as_buf(case["buf"], data, ctx), len(pre)) if pre else msb_size(as_buf(case["buf"], data, ctx))
    require((o, v) == (len(pre) + len(a), case["v"]), "number %d at %d read as %d ending at %d", case["v"], len(pre), v, o)
    o, w = msb_size(as_buf(case["buf"], data, ctx), o)
    require((o, w) == (len(pre) + len(a) + len(b), case["w"]), "second number %d read as %d ending at %d", case["w"], w, o)


def enum_two(tier, seed):
    return [{"b0": b0} for b0 in range(256)]


def body_two(case, ctx):
    from gitdb.fun import is_loose_object
    b0 = case["b0"]
    for b1 in range(256):
        word = b0 << 8 | b1
        if b0 == 0x78 and word % 31 == 0:
            want = True
            if b1 & 0x20:
                continue                # asks for a preset dictionary: not what git writes, either answer is fine
        elif word % 31 or b0 & 15 != 8 or b0 >> 4 > 7:
            want = False
        else:
            continue                    # zlib streams with a smaller window: git never writes them, either answer is fine
        for m in (bytes([b0, b1]), bytes([b0, b1, 1, 2, 3]), memoryview(bytes([b0, b1, 9])), as_buf(3, bytes([b0, b1, 7]), ctx)):
            got = is_loose_object(m)
            require(bool(got) == want, "file beginning with %02x %02x: is_loose_object says %r", b0, b1, got)
    ctx.nontrivial()
    ctx.label("256 beginnings")


def st_entry():
    off = st.one_of(st.sampled_from([12, 13, 127, 128, 16383, 16384, 16511, 16512, 2113663, 2113664, (1 << 21) - 1, 1 << 21, (1 << 30) - 1, 1 << 30, (1 << 31) - 1,
                                     1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 6 << 30]), st.integers(12, 1 << 20), st.integers(12, 6 << 30))
    return st.fixed_dictionaries({"kind": st.sampled_from([1, 2, 3, 4, 6, 6, 6, 7]), "size": big_sizes(), "off": off,
                                  "dist": st.one_of(st.sampled_from([1, 127, 128, 129, 16511, 16512, 16513, 2113663, 2113664, 2113665, 270549119, 270549120, 270549121, (1 << 32) - 1]),
                                                    st.integers(1, 1 << 20), st.integers(1, 1 << 33)),
                                  "sha": st.binary(min_size=20, max_size=20), "tail": st.sampled_from([20, 21, 4096, 100000])})


def body_entry(case, ctx):
    """an entry header anywhere in a (sparse) pack file"""
    from gitdb.pack import PackFile
    off, kind, size = case["off"], case["kind"], case["size"]
    hdr = ref.entry_header(kind, size)
    dist = min(case["dist"], off - 1)
    if kind == 6:
        hdr += ref.ofs_enc(dist)
    elif kind == 7:
        hdr += case["sha"]
    p = os.path.join(ctx.dir, "pack-x.pack")
    with open(p, "wb") as f:
        f.write(b"PACK\0\0\0\2\0\0\0\1")
        f.seek(off)
        f.write(hdr + zlib.compress(b""))
        f.seek(case["tail"] - 1, 1)
        f.write(b"\0")
    ctx.nontrivial(len(hdr) > 2)
    pf = PackFile(p)
    for o in (pf.info(off), pf.stream(off)):
        require(o.pack_offset == off and o.type_id == kind and o.size == size, "entry at %d (kind %d size %d) reported as %r", off, kind, size, tuple(o)[:3])
        if kind == 6:
            require(o.delta_info == dist, "base distance %d read as %r", dist, o.delta_info)
        elif kind == 7:
            require(bytes(o.delta_info) == case["sha"], "base id %s read as %s", case["sha"].hex(), bytes(o.delta_info).hex())
        else:
            require(o.type == ref.ID_TYPE[kind], "type %r", o.type)
    ctx.label("beyond 2 GiB" if off > 1 << 31 else "below 2 GiB")
    pf.close()


def st_writeobj():
    return st.fixed_dictionaries({"t": gen.types(), "str": st.booleans(), "c": gen.contents(5000), "chunk": st.integers(1, 6000)})


def body_writeobj(case, ctx):
    from gitdb.fun import write_object
    from io import BytesIO
    typ, c = ref.TYPES[case["t"]], ref.content(case["c"])
    out = BytesIO()
    n = write_object(typ.decode() if case["str"] else typ, len(c), BytesIO(c).read, out.write, chunk_size=case["chunk"])
    want = typ + b" %d\0" % len(c) + c
    require(out.getvalue() == want, "write_object wrote something else")
    require(n == len(want), "write_object reports %r bytes, wrote %d", n, len(want))
    ctx.nontrivial(len(c) > case["chunk"])


def sections():
    return [Section("pack-header", body_packhdr, st_packhdr, quick=4000, thorough=200000),
            Section("loose-header", body_loosehdr, st_loosehdr, quick=1500, thorough=40000),
            Section("numbers", body_msb, st_msb, quick=3000, thorough=100000),
            Section("beginnings", body_two, enum=enum_two),
            Section("entry-anywhere", body_entry, st_entry, quick=600, thorough=10000),
            Section("write-object", body_writeobj, st_writeobj, quick=400, thorough=10000)]
