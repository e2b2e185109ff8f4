"""C24 Reading needs no write access and changes nothing."""
import hashlib
import os
import stat

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import Section, require, short
from . import c11

RULE = ("a case is a store (loose objects, packs, alternates, foreign and damaged files), a user (the owner, or one who may only read) and a sequence of queries of every kind; "
        "non-trivial = the user may only read and content was read, or a query failed at a damaged file")
ASSUMPTIONS = ["access times are not looked at", "LockedFD (which makes a lock file even for reading) isn't part of reading"]

KINDS = ["has", "info", "stream", "stream", "part", "iter", "size", "abbrev", "update", "update", "fresh", "entity", "verify", "crc", "walk", "infos", "chain", "index", "file", "miss"]
DAMAGE = ["cut", "flip", "empty", "garbage", "lone"]


def strategy(maxobj, maxops):
    base = c11.strategy(maxobj, 0)

    def s():
        op = st.tuples(st.sampled_from(KINDS), st.integers(0, 12), st.integers(0, 60), st.integers(0, 500)).map(list)
        return st.fixed_dictionaries({"tree": base(), "ops": gen.histories(op, 3, maxops), "other": st.booleans(),
                                      "damage": st.lists(st.tuples(st.sampled_from(DAMAGE), st.integers(0, 40), st.integers(0, 400)).map(list), max_size=2),
                                      "foreign": st.booleans()})
    return s


def snapshot(top):
    out = {}
    for r, ds, fs in os.walk(top):
        for n in [""] + fs:
            p = os.path.join(r, n) if n else r
            s = os.lstat(p)
            h = None
            if stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    h = hashlib.sha1(f.read()).hexdigest()
            out[p] = (s.st_mode, s.st_ino, s.st_size if h else 0, s.st_mtime_ns, s.st_ctime_ns, s.st_nlink, s.st_uid, h)
    return out


def body(case, ctx):
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    from gitdb.exc import ODBError
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    from gitdb.util import file_contents_ro_filepath
    objs, nodes = c11.build(case["tree"], ctx)
    content = {s: (t, c) for s, t, c in objs}
    top = ctx.dir
    files = sorted(os.path.join(r, f) for r, ds, fs in os.walk(top) for f in fs)
    for how, k, x in case["damage"]:
        if not files:
            break
        p = files[k % len(files)]
        if not os.path.exists(p):
            continue
        with open(p, "rb") as f:
            d = f.read()
        if how == "lone":
            os.remove(p)
            continue
        d = {"cut": d[:x % (len(d) + 1)], "flip": d[:x % max(len(d), 1)] + bytes([x % 255 + 1]) + d[x % max(len(d), 1) + 1:], "empty": b"", "garbage": ref.content(["rand", 40 + x, k])}[how]
        with open(p, "wb") as f:
            f.write(d)
    damaged = bool(case["damage"]) and bool(files)
    if case["foreign"]:
        for n in nodes:
            for name in ("objabc123", "README", "pack-1.keep", "zz"):
                if os.path.exists(os.path.join(n.root, name)):
                    continue
                with open(os.path.join(n.root, name), "w") as f:
                    f.write("x")
            if n.packdir:
                for name in ("pack-%s.keep" % ("1" * 40), "tmp_pack_x", "pack-%s.idx" % ("2" * 40), "x.pack"):
                    with open(os.path.join(n.root, "pack", name), "w") as f:
                        f.write("x")
    packs = sorted(os.path.join(r, f)[:-5] for r, ds, fs in os.walk(top) for f in fs if f.startswith("pack-") and f.endswith(".pack") and f[:-5] + ".idx" in fs)
    old = 1_500_000_000
    for r, ds, fs in os.walk(top, topdown=False):
        for f in fs:
            if case["other"]:
                os.chmod(os.path.join(r, f), 0o444)
            os.utime(os.path.join(r, f), (old, old))
        if case["other"]:
            os.chmod(r, 0o555)
        os.utime(r, (old, old))
    other = False
    if case["other"]:
        os.chmod(os.path.dirname(top), 0o711)

        groups, gid = os.getgroups(), os.getegid()

        def back():
            if os.geteuid():
                os.setresuid(0, 0, 0)
                os.setresgid(gid, gid, gid)
                os.setgroups(groups)
            for r, ds, fs in os.walk(top):
                os.chmod(r, 0o755)
        ctx.cleanup(back)
    before = snapshot(top)
    if case["other"] and os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setresgid(65534, 65534, gid)
            os.setresuid(65534, 65534, 0)       # the real user as well, for those who ask before they try
            other = True
        except OSError:
            ctx.label("no other user")
    failed = [0]
    got = [0]
    dbs = []

    def make():
        out = []
        for n in nodes:
            out += [(GitDB(n.root), n.known), (LooseObjectDB(n.root), n.loose)]
            if n.packdir:
                out.append((PackedDB(os.path.join(n.root, "pack")), set().union(*n.packs)))
            if n.altfile:
                out.append((ReferenceDB(n.altfile), n.alt_known))
        return out

    def check(k, i, j, x):
        db, known = dbs[i % len(dbs)]
        sha, t, c = objs[j % len(objs)]
        if sha not in known and k in ("info", "stream", "part"):
            sha2 = sorted(known)[j % len(known)] if known else None
            if sha2 is None:
                return
            sha, (t, c) = sha2, content[sha2]
        base = packs[j % len(packs)] if packs else None
        if k == "has":
            require(db.has_object(sha) is (sha in known) or damaged, "has_object(%s)", sha.hex())
        elif k == "info":
            o = db.info(sha)
            require((o.type, o.size) == (t, len(c)) or damaged, "info of %s", sha.hex())
        elif k in ("stream", "part"):
            o = db.stream(sha)
            d = bytes(o.read() if k == "stream" else o.read(max(1, x % (len(c) + 1))))
            require(c.startswith(d) and (d == c or k == "part") and o.size == len(c) or damaged, "content of %s", sha.hex())
            got[0] += 1
        elif k == "iter":
            ids = {bytes(s) for s in db.sha_iter()}
            require(ids == known or damaged or case["foreign"], "enumeration gives other ids")
        elif k == "size":
            db.size()
        elif k == "abbrev":
            if hasattr(db, "partial_to_complete_sha_hex"):
                db.partial_to_complete_sha_hex(sha.hex()[:4 + x % 37])
            elif hasattr(db, "partial_to_complete_sha"):
                db.partial_to_complete_sha(sha, 40)
        elif k == "update":
            if hasattr(db, "update_cache"):
                db.update_cache(force=bool(x % 2))
        elif k == "fresh":
            dbs[:] = make()
        elif k == "miss":
            try:
                db.stream(bytes([x % 256]) * 20)
            except ODBError:
                pass
        elif k == "file":
            p = files[x % len(files)] if files else top
            if os.path.isfile(p):
                m = file_contents_ro_filepath(p, stream=bool(j % 2), allow_mmap=bool(i % 2))
                len(m)
        elif base:
            e = PackEntity(base + (".pack" if x % 2 else ".idx"))
            if k == "entity":
                e.info(sha)
            elif k in ("verify", "crc"):
                e.is_valid_stream(sha, k == "crc")
            elif k == "walk":
                for s in PackFile(base + ".pack").stream_iter():
                    s.read(7)
            elif k == "infos":
                for o in e.info_iter():
                    o.size
            elif k == "chain":
                e.collect_streams(sha)
            elif k == "index":
                ix = PackIndexFile(base + ".idx")
                ix.offsets(), ix.indexfile_checksum(), ix.packfile_checksum(), ix.sha_to_index(sha), ix.version()

    dbs[:] = make()
    for op in case["ops"]:
        ctx.label(op[0])
        try:
            check(*op)
        except Exception as e:
            # an absent object, something damaged, or an index of version 1 (which has no checksums)
            if isinstance(e, OSError) and not damaged and not case["foreign"]:
                raise
            if isinstance(e, PermissionError):
                raise
            failed[0] += damaged
            from ..engine import HarnessError, Violation
            if isinstance(e, (HarnessError, Violation)):
                raise
            require(damaged or case["foreign"] or op[0] not in ("has", "info", "stream", "part", "iter", "size", "update", "fresh", "miss", "file", "walk", "infos", "index"),
                    "%s fails: %r", op[0], e)
    if other:
        os.setresuid(0, 0, 0)
        os.setresgid(gid, gid, gid)
    after = snapshot(top)
    for p in sorted(set(before) | set(after)):
        require(p in before, "%s has appeared", p[len(top):])
        require(p in after, "%s has disappeared", p[len(top):])
        require(before[p] == after[p], "%s was changed: %s became %s", p[len(top):], short(before[p], 300), short(after[p], 300))
    ctx.nontrivial(bool(other and got[0] or failed[0]))
    ctx.label("another user" if other else "owner")


def sections():
    return [Section("queries", body, strategy(10, 14), quick=2500, thorough=60000)]
