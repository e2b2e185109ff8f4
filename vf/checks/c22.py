"""C22 Objects are described consistently in every form."""
import importlib
import os
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, require, short

RULE = ("a case is a pack with deltas, opened through databases and pack objects whose descriptions are compared, or arbitrary values put into the description classes; "
        "non-trivial = at least one object was described as a delta by the pack and resolved by the database, or all classes were filled")
ASSUMPTIONS = ["the builder's table of entries is right (C04 and C10 check it with git)"]

TYPES = [b"commit", b"tree", b"blob", b"tag"]


def plain_strategy():
    return st.fixed_dictionaries({"sha": st.binary(min_size=20, max_size=20), "t": st.integers(0, 3), "size": st.one_of(st.integers(0, 300), st.integers(0, 1 << 66)),
                                  "off": st.integers(0, 1 << 40), "d": st.integers(1, 1 << 40), "data": st.binary(max_size=50), "text": st.text(max_size=20), "n": st.integers(1, 60),
                                  "sets": st.lists(st.tuples(st.sampled_from(["binsha", "type", "size", "stream", "error"]), st.integers(0, 3)).map(list), max_size=6)})


def plain_body(case, ctx):
    base, exc, typ, util = (importlib.import_module('gitdb.' + n) for n in ('base', 'exc', 'typ', 'util'))
    from gitdb.fun import type_id_to_type_map, type_to_type_id_map, OFS_DELTA, REF_DELTA
    sha, t, size, off, data, n = case["sha"], TYPES[case["t"]], case["size"], case["off"], case["data"], case["n"]
    tid = case["t"] + 1
    hexsha = sha.hex().encode()
    require([typ.str_commit_type, typ.str_tree_type, typ.str_blob_type, typ.str_tag_type] == TYPES, "names of types")

    def tup(o, want, what):
        require(len(o) == len(want) and all(a is b or a == b for a, b in zip(o, want)), "%s: as tuple it is %s instead of %s", what, short(tuple(o)), short(want))
    for cls in (base.OInfo, base.OStream, base.ODeltaStream):
        s = BytesIO(data)
        s2 = type("S", (), {"size": size, "read": s.read})()
        o = cls(sha, t, size) if cls is base.OInfo else cls(sha, t, size, s) if cls is base.OStream else cls(sha, t, None, s2)
        what = cls.__name__
        require((o.binsha, o.hexsha, o.type, o.type_id, o.size) == (sha, hexsha, t, tid, size), "%s says %s", what, short((o.binsha, o.hexsha, o.type, o.type_id, o.size), 300))
        if cls is base.OInfo:
            tup(o, (sha, t, size), what)
        else:
            tup(o[:2], (sha, t), what)
            require(o.stream is (s if cls is base.OStream else s2) and o[3] is o.stream, "%s: stream", what)
            require(o.read(n) == data[:n] and o.read() == data[n:], "%s: read", what)
    for ids in (tid, OFS_DELTA, REF_DELTA):
        delta = ids in (OFS_DELTA, REF_DELTA)
        info = sha if ids == REF_DELTA else case["d"]
        name = type_id_to_type_map[ids]
        require(type_to_type_id_map[name] == ids and name == ("OFS_DELTA" if ids == 6 else "REF_DELTA" if ids == 7 else t), "type %d is %r", ids, name)
        for st_ in (False, True):
            s = BytesIO(data)
            cls = {(False, False): base.OPackInfo, (True, False): base.ODeltaPackInfo, (False, True): base.OPackStream, (True, True): base.ODeltaPackStream}[delta, st_]
            want = (off, ids, size) + ((info,) if delta else ()) + ((s,) if st_ else ())
            o = cls(*want)
            tup(o, want, cls.__name__)
            require((o.pack_offset, o.type_id, o.type, o.size) == (off, ids, name, size), "%s says %r", cls.__name__, (o.pack_offset, o.type_id, o.type, o.size))
            if delta:
                require(o.delta_info == info, "%s: delta_info", cls.__name__)
            if st_:
                require(o.stream is s and o.read(n) == data[:n] and o.read() == data[n:], "%s: stream", cls.__name__)
    s = BytesIO(data)
    for preset in (None, sha):
        i = base.IStream(t, size, s, preset) if preset else base.IStream(t, size, s)
        m = {"binsha": preset, "type": t, "size": size, "stream": s, "error": None}
        require((i.binsha, i.type, i.size, i.stream, i.error) == (preset, t, size, s, None), "IStream says otherwise")
        for k, v in case["sets"]:
            v = {"binsha": bytes([v]) * 20, "type": TYPES[v], "size": v, "stream": BytesIO(bytes([v])), "error": ValueError(v)}[k]
            setattr(i, k, v)
            m[k] = v
            for a in m:
                require(getattr(i, a) is m[a] or getattr(i, a) == m[a], "IStream: %s is %r after setting %s", a, getattr(i, a), k)
            tup(i, (m["binsha"], m["type"], m["size"], m["stream"], m["error"]), "IStream")
        if m["binsha"] is not None:
            require(i.hexsha == m["binsha"].hex().encode(), "IStream: hexsha")
        pos = m["stream"].tell()
        all_ = m["stream"].getvalue()
        require(i.read(n) == all_[pos:pos + n] and i.read() == all_[pos + n:], "IStream: read")
        s.seek(0)
    e = KeyError("x")
    for cls in (base.InvalidOInfo, base.InvalidOStream):
        o = cls(sha, e)
        require((o.binsha, o.hexsha, o.error) == (sha, hexsha, e), "%s", cls.__name__)
        tup(o, (sha, e), cls.__name__)
    # ids
    require(util.hex_to_bin(hexsha) == sha and util.bin_to_hex(sha) == hexsha, "hex_to_bin, bin_to_hex")
    for f in (sha, hexsha, sha.hex()):
        h, b = util.to_hex_sha(f), util.to_bin_sha(f)
        require((h if isinstance(h, bytes) else h.encode()) == hexsha, "to_hex_sha(%r) is %r", f, h)
        require(b == sha, "to_bin_sha(%r) is %r", f, b)
        require(sha.hex() in str(exc.BadObject(f)), "BadObject(%r) says %s", f, exc.BadObject(f))
    require(sha.hex()[:n] in str(exc.BadObject(sha.hex()[:n])), "BadObject of an abbreviation says %s", exc.BadObject(sha.hex()[:n]))
    for c in (exc.BadObject, exc.BadName, exc.ParseError, exc.AmbiguousObjectName, exc.BadObjectType, exc.UnsupportedOperation, exc.InvalidDBRoot):
        require(issubclass(c, exc.ODBError), "%s is no ODBError", c.__name__)
    for i, b in enumerate(sha):
        require(util.byte_ord(b) == b and util.byte_ord(sha[i:i + 1]) == b, "byte_ord")
    from gitdb.utils.encoding import force_bytes, force_text
    text = case.get("text", "")
    for enc in ("utf-8", "utf-16", "latin-1"):
        if enc == "latin-1":
            text = text.encode("ascii", "ignore").decode("ascii") + "\xe4"
        b = force_bytes(text, enc)
        require(b == text.encode(enc) and force_text(b, enc) == text and force_text(text, enc) == text and force_bytes(b, enc) == b, "force_bytes, force_text (%s)", enc)
    text = case.get("text", "")
    require(force_bytes(text) == text.encode() and force_text(text.encode()) == text and force_bytes(data) == data, "force_bytes, force_text")
    ctx.nontrivial()


def pack_strategy():
    return st.fixed_dictionaries({"p": gen.pack_descs(8, 400), "order": st.lists(st.integers(0, 99), min_size=4, max_size=4)})


def pack_body(case, ctx):
    from gitdb.db import GitDB, PackedDB
    from gitdb.fun import type_to_type_id_map
    from gitdb.pack import PackEntity
    bp = ref.build_pack(case["p"])
    root = ref.make_gitdir(os.path.join(ctx.dir, "r"))
    d = os.path.join(root, "pack")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "pack-" + bp.packsha.hex())
    with open(base + ".pack", "wb") as f:
        f.write(bp.pack)
    with open(base + ".idx", "wb") as f:
        f.write(bp.idx)
    ent = PackEntity(base + ".pack")
    ent2 = PackEntity(base + ".idx")
    dbs = [GitDB(root), PackedDB(d)]
    pack, idx = ent.pack(), ent.index()
    require((pack.path(), idx.path()) == (base + ".pack", base + ".idx") and ent2.pack().path() == pack.path() and ent2.index().path() == idx.path(), "paths")
    require(pack.size() == len(bp.ents) and pack.version() == 2 and bytes(pack.checksum()) == bp.packsha, "the pack's size, version or checksum")
    by = {e.sha: e for e in bp.ents}

    def walk():
        infos = list(ent.info_iter())
        streams = list(ent.stream_iter())
        require([bytes(i.binsha) for i in infos] == sorted(by) and [bytes(s.binsha) for s in streams] == sorted(by), "iteration gives other ids")
        return infos, streams
    infos, streams = walk()
    for n, sha in enumerate(sorted(by)):
        e = by[sha]
        typ, c = e.type, e.content
        want = (typ, ref.TYPE_ID[typ], len(c), sha.hex().encode())
        k = idx.sha_to_index(sha)
        forms = [("info_iter", infos[n]), ("stream_iter", streams[n]), ("info", ent.info(sha)), ("stream", ent2.stream(sha)), ("info_at_index", ent2.info_at_index(k)), ("stream_at_index", ent.stream_at_index(k))]
        for db in dbs:
            forms += [("db info", db.info(sha)), ("db stream", db.stream(sha))]
        for what, o in forms:
            got = (o.type, o.type_id, o.size, bytes(o.hexsha))
            require(got == want and bytes(o.binsha) == sha and bytes(o[0]) == sha and o[1] == typ, "%s of %s says %r instead of %r", what, sha.hex(), got, want)
            if "stream" in what:
                require(bytes(o.read()) == c and o.stream is o[3], "%s of %s: content", what, sha.hex())
            else:
                require(o[2] == len(c), "%s of %s: size in the tuple", what, sha.hex())
        # as the pack has it
        off = idx.offset(k)
        require(off == e.offset, "offset")
        pi, ps = pack.info(off), pack.stream(off)
        name = {6: "OFS_DELTA", 7: "REF_DELTA"}.get(e.kind, typ)
        for o in (pi, ps):
            require((o.pack_offset, o.type_id, o.type, o.size) == (e.offset, e.kind, name, len(e.data)), "the entry at %d says %r", off, (o.pack_offset, o.type_id, o.type, o.size))
            require(type_to_type_id_map[o.type] == o.type_id, "type and its number")
            if e.kind == ref.OFS:
                require(o.delta_info == e.offset - e.delta_info.offset, "delta_info %r", o.delta_info)
            elif e.kind == ref.REF:
                require(bytes(o.delta_info) == e.delta_info, "delta_info %s", short(bytes(o.delta_info)))
        require(bytes(ps.read()) == e.data, "packed data of %s", sha.hex())
        chain = ent.collect_streams(sha)
        chain2 = ent2.collect_streams_at_offset(off)
        x, want = e, []
        while True:
            want.append(x.offset)
            if x.kind == ref.OFS:
                x = x.delta_info
            elif x.kind == ref.REF:
                x = by[x.delta_info]
            else:
                break
        require([s.pack_offset for s in chain] == want == [s.pack_offset for s in chain2], "the chain of %s is at %r instead of %r", sha.hex(), [s.pack_offset for s in chain], want)
        ctx.nontrivial(e.kind in (ref.OFS, ref.REF))


def sections():
    return [Section("values", plain_body, plain_strategy, quick=2500, thorough=40000),
            Section("packs", pack_body, pack_strategy, quick=900, thorough=20000)]
