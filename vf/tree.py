"""Trees of object directories: loose objects, packs, alternates. Used by C11, C12, C15, C17."""
import os

from . import ref

ROOTNAMES = ["r", "r [1]", "r \u00e9\u6f22", "a b*c?", "pa", "r\udce9", "r\u2028\x0b\x1cx"]


def common(a, b):
    n = min(len(a), len(b))
    i = 0
    while i < n and a[i] == b[i]:
        i += 1
    return i


def make_pack(objs, how, v=2):
    """objs: list of (sha, type, content); how: number choosing the representation of each. -> BuiltPack"""
    bp = ref.BuiltPack()
    bp.ents, bp.objs = [], {}
    bp.base = {}
    for n, (sha, typ, c) in enumerate(objs):
        e = ref.PackEnt()
        e.sha, e.type, e.content = sha, typ, c
        base = None
        if (how >> (n % 8)) & 1:
            for b in reversed(bp.ents):
                if b.type == typ:
                    base = b
                    break
        if base is None or (len(c) == 0 or len(base.content) == 0):     # git refuses deltas of less than 4 bytes
            base = None
            e.kind, e.data, e.delta_info = ref.TYPE_ID[typ], c, None
        else:
            k = common(base.content, c)
            instr = [("c", o, min(k - o, 0xffffff)) for o in range(0, k, 0xffffff)]
            instr += [("i", c[o:o + 127]) for o in range(k, len(c), 127)]
            e.data = ref.delta_bytes(len(base.content), len(c), instr)
            if (how >> 8) & 1:
                e.kind, e.delta_info = ref.OFS, base
            else:
                e.kind, e.delta_info = ref.REF, base.sha
        bp.base[sha] = base.sha if base is not None else None
        e.raw = ref.zenc(e.data, {"l": how % 10})
        bp.ents.append(e)
        bp.objs[sha] = (typ, c)
    if (how >> 9) & 1 and not (how >> 8) & 1:
        bp.ents.reverse()       # bases behind their deltas
    bp.pack = ref.pack_bytes(bp.ents)
    bp.packsha = bp.pack[-20:]
    items = [(e.sha, e.crc, e.offset) for e in bp.ents]
    bp.version = 1 if v == 1 else 2
    bp.idx = ref.idx_v1(items, bp.packsha) if v == 1 else ref.idx_v2(items, bp.packsha, 0 if v == 3 else 0x7fffffff)
    return bp


def resolve(objs):
    """[[type number, content desc], ...] -> distinct (sha, type, content)"""
    out, seen = [], set()
    for t, c in objs:
        c, typ = ref.content(c), ref.TYPES[t]
        sha = ref.obj_id(typ, c)
        if sha not in seen:
            seen.add(sha)
            out.append((sha, typ, c))
    return out
