"""C25 Several users can share a database they may all write to."""
import os
import stat
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import HarnessError, Section, require, short

RULE = ("a case is a database whose directories are writable for all, what exists in it, and a history of operations of three users; "
        "non-trivial = a user stored, packed or replaced something which belonged to another user before")
ASSUMPTIONS = ["directories don't have the sticky bit", "users are those of one process which changes its user (memory maps of files aside, that's what counts for opening and creating files)"]

USERS = [65534, 65533, 65532]
POOL = [[0, b"first"], [0, b""], [1, b"tree"], [2, ["text", 900, 1]], [3, ["rand", 9000, 2]], [0, ["rep", 300, 3]], [0, ["rand", 70000, 4]],
        [0, b"n392"], [0, b"n430"], [0, b"n466"]]         # these in the directory of the first
KINDS = ["store", "store", "store", "raw", "raw", "copy", "pack", "read", "has", "iter", "abbrev", "update", "lock", "rollback", "unlock", "lockread"]


def strategy():
    k = st.one_of(st.integers(0, 9), st.sampled_from([0, 7, 8, 9]))
    op = st.tuples(st.integers(0, 2), st.sampled_from(KINDS), k, st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({"pre": st.lists(st.tuples(st.integers(0, 2), k).map(list), max_size=4), "prepack": st.booleans(), "git": st.booleans(), "umask": st.sampled_from([0, 0, 0o22, 0o77]),
                                  "ops": gen.histories(op, 2, 9)})


def body(case, ctx):
    from gitdb.base import IStream, OStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB
    from gitdb.pack import PackEntity
    from gitdb.util import LockedFD
    objs = tree.resolve(POOL)
    content = {s: (t, c) for s, t, c in objs}
    top = ctx.dir
    root = os.path.join(top, "objects")
    locked = os.path.join(top, "ref")
    if os.geteuid() != 0:
        raise HarnessError("changing the user needs root")
    old = os.umask(0)

    groups, gid = os.getgroups(), os.getegid()

    def back():
        os.setresuid(0, 0, 0)
        os.setresgid(gid, gid, gid)
        os.setgroups(groups)
        os.umask(old)
    ctx.cleanup(back)
    os.chmod(os.path.dirname(top), 0o711)
    os.makedirs(os.path.join(root, "pack"))
    os.chmod(top, 0o777)
    # with a umask which keeps others from writing, the directories have to be there before
    for s in content if case["umask"] else ():
        os.makedirs(os.path.join(root, s.hex()[:2]), exist_ok=True)
    owner = {}          # id of a loose object -> user
    known = set()
    packs = {}
    value, lock_owner = None, None

    def become(u):
        os.setresuid(0, 0, 0)
        os.setresgid(gid, gid, gid)
        os.umask(0)
        if u is not None:
            os.umask(case["umask"])
            os.setgroups([])
            os.setresgid(USERS[u], USERS[u], gid)
            os.setresuid(USERS[u], USERS[u], 0)
    become(None)
    for u, k in case["pre"]:
        s, t, c = objs[k]
        if s in owner:
            continue
        become(u)
        ref.write_loose(root, s, ref.loose_bytes(t, c))
        os.chmod(os.path.join(root, s.hex()[:2], s.hex()[2:]), 0o444)
        become(None)
        owner[s] = u
        known.add(s)
    if case["prepack"]:
        bp = ref.build_pack({"objs": [{"t": 2, "c": b"packed by somebody"}], "idx": 2})
        ref.write_pack_files(bp, os.path.join(root, "pack"))
        for e in bp.ents:
            known.add(e.sha)
            content[e.sha] = (e.type, e.content)
    crossed = 0
    for u, k, i, n in case["ops"]:
        sha, t, c = objs[i]
        what = "%s of object %d by user %d" % (k, i, u)
        become(u)
        try:
            db = (GitDB if case["git"] else LooseObjectDB)(root)
            if k in ("store", "raw"):
                r = db.store(IStream(t, len(c), BytesIO(c)) if k == "store" else IStream(t, len(c), BytesIO(ref.loose_bytes(t, c, {"l": n})), sha))
                require(bytes(r.binsha) == sha, "%s: is stored as %s", what, bytes(r.binsha).hex())
                crossed += owner.get(sha, u) != u
                owner.setdefault(sha, u)
                known.add(sha)
            elif k == "copy":
                m = MemoryDB()
                m.store(IStream(t, len(c), BytesIO(c)))
                db = GitDB(root)
                num = m.stream_copy([sha], db)
                require(num == (sha not in known), "%s: %r were copied", what, num)
                if num:
                    owner.setdefault(sha, u)
                known.add(sha)
            elif k == "pack":
                some = objs[:1 + i]
                e = PackEntity.create([OStream(s, tt, len(cc), BytesIO(cc)) for s, tt, cc in some], os.path.join(root, "pack"))
                p = e.pack().path()
                crossed += packs.get(p, u) != u
                packs[p] = u
                known.update(s for s, _, _ in some)
            elif k in ("read", "has", "iter", "abbrev", "update"):
                db = GitDB(root)
                if k == "read":
                    for s in sorted(known):
                        o = db.stream(s)
                        require((o.type, o.size, bytes(o.read())) == (content[s][0], len(content[s][1]), content[s][1]), "%s: %s is read wrongly", what, s.hex())
                elif k == "has":
                    require(db.has_object(sha) is (sha in known), "%s: is %r", what, db.has_object(sha))
                elif k == "iter":
                    require({bytes(s) for s in db.sha_iter()} == known, "%s: other objects are enumerated", what)
                elif k == "abbrev" and sha in known:
                    require(bytes(db.partial_to_complete_sha_hex(sha.hex()[:39])) == sha, "%s: resolves differently", what)
                elif k == "update":
                    db.update_cache(force=bool(n % 2))
            elif k in ("lock", "rollback", "unlock"):
                lock = LockedFD(locked)
                s = lock.open(write=True, stream=True)
                s.write(c)
                if k == "lock":
                    lock.commit()
                    crossed += lock_owner not in (None, u)
                    value, lock_owner = c, u
                elif k == "rollback":
                    lock.rollback()
                del s, lock
            elif k == "lockread" and value is not None:
                lock = LockedFD(locked)
                require(lock.open(stream=True).read() == value, "%s: other content", what)
                lock.rollback()
            require(not os.path.exists(locked + ".lock"), "%s: the lock stays", what)
        except OSError as e:
            if case["umask"] == 0o77 and k in ("store", "raw", "copy") and os.path.exists(os.path.join(root, sha.hex()[:2])) is False:
                raise HarnessError("a directory is missing")
            require(False, "%s fails: %r", what, e)
    ctx.nontrivial(crossed > 0)
    ctx.label("crossed" if crossed else "apart")
    for u in (0, 1, 2):
        become(u)
        for r, ds, fs in os.walk(root):
            for f in fs:
                p = os.path.join(r, f)
                try:
                    os.close(os.open(p, os.O_RDONLY))
                except OSError as e:
                    require(False, "user %d can't read %s of user %d (mode %o)", u, p[len(top):], os.stat(p).st_uid, stat.S_IMODE(os.stat(p).st_mode))
        if value is not None:
            try:
                with open(locked, "rb") as f:
                    got = f.read()
            except OSError as e:
                require(False, "user %d can't read the committed file of user %d: %r", u, lock_owner, e)
            require(got == value, "the locked file has other content")
        d = GitDB(root)
        require({bytes(s) for s in d.sha_iter()} == known, "user %d enumerates other objects at the end", u)
        for s in known:
            o = d.stream(s)
            require((o.type, o.size, bytes(o.read())) == (content[s][0], len(content[s][1]), content[s][1]), "at the end user %d reads %s wrongly", u, s.hex())
    become(None)
    for s, u in owner.items():
        p = os.path.join(root, s.hex()[:2], s.hex()[2:])
        require(os.path.isfile(p) and not os.stat(p).st_mode & 0o222, "the object %s may be written to (mode %o)", s.hex(), stat.S_IMODE(os.stat(p).st_mode))
        with open(p, "rb") as f:
            require(ref.parse_loose(f.read()) == content[s], "the file of %s differs", s.hex())
    left = [f for f in os.listdir(root) if os.path.isfile(os.path.join(root, f))] + [f for f in os.listdir(os.path.join(root, "pack")) if not f.startswith("pack-")]
    require(not left, "left behind: %s", short(left))


def sections():
    return [Section("users", body, strategy, quick=3000, thorough=80000)]
