"""C14 The memory database stages objects faithfully."""
import os
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import Section, Violation, require, short
from .c01 import Source, listing

RULE = ("a case is a history of stores into a memory database, reads (partial, interleaved, repeated) and copies of selections into a loose database, a repository "
        "whose objects are partly packed and another memory database; non-trivial = a copy added some objects of its selection and skipped others, or "
        "an object was read after another of its streams had been read partially")
ASSUMPTIONS = ["selections name ids of the memory database, except in the operation 'copy absent'"]


def strategy(maxn, maxops):
    def s():
        pieces = st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 7, 511, 4096]), min_size=1, max_size=3))
        sel = st.lists(st.integers(0, 60), max_size=8)
        op = st.one_of(
            st.tuples(st.just("store"), st.integers(0, 60), pieces, st.sampled_from([0, 0, 100])).map(list),
            st.tuples(st.just("store"), st.integers(0, 60), pieces, st.sampled_from([0, 0, 100])).map(list),
            st.tuples(st.just("raw"), st.integers(0, 60), gen.zdescs()).map(list),
            st.tuples(st.just("early"), st.integers(0, 60), st.integers(1, 500)).map(list),
            st.tuples(st.just("target"), st.integers(0, 60), st.integers(0, 2)).map(list),
            st.tuples(st.just("open"), st.integers(0, 60)).map(list),
            st.tuples(st.just("read"), st.integers(0, 8), st.one_of(st.integers(1, 50), gen.sizes(5000), st.just(-1))).map(list),
            st.tuples(st.just("seek"), st.integers(0, 8)).map(list),
            st.tuples(st.just("query"), st.integers(0, 60)).map(list),
            st.tuples(st.just("copy"), st.integers(0, 3), sel, st.sampled_from(["list", "iter", "all", "tuple"])).map(list),
            st.tuples(st.just("copy"), st.integers(0, 3), sel, st.sampled_from(["list", "iter", "all", "tuple"])).map(list),
            st.tuples(st.just("absent"), st.integers(0, 3), sel).map(list), st.tuples(st.just("blocked"), st.integers(0, 1), sel, st.integers(0, 8)).map(list))
        obj = st.tuples(gen.types(), gen.contents(maxn, 30)).map(list)
        return st.fixed_dictionaries({"objs": st.lists(obj, min_size=1, max_size=9), "ops": st.lists(op, min_size=min(8, maxops), max_size=maxops),
                                      "packed": st.lists(st.integers(0, 60), max_size=5), "how": st.integers(0, 1023)})
    return s


def body(case, ctx):
    from gitdb.base import IStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB
    from gitdb.exc import BadObject
    objs = tree.resolve(case["objs"])
    content = {s: (t, c) for s, t, c in objs}
    gds = [os.path.join(ctx.dir, n) for n in ("a", "b")]
    roots = [ref.make_gitdir(g) for g in gds]
    packed = []
    for k in case["packed"]:
        o = objs[k % len(objs)]
        if o not in packed:
            packed.append(o)
    if packed:
        ref.write_pack_files(tree.make_pack(packed, case["how"]), os.path.join(roots[1], "pack"))
    mdb = MemoryDB()
    targets = [(LooseObjectDB(roots[0]), set(), roots[0]), (GitDB(roots[1]), {o[0] for o in packed}, roots[1]), (MemoryDB(), set(), None),
               (MemoryDB(), set(), None)]
    inmem = set()
    streams = []            # [stream, sha, position]

    def same(db, sha, what):
        t, c = content[sha]
        i = db.info(sha)
        require((bytes(i.binsha), i.type, i.size) == (sha, t, len(c)), "%s: info of %s is %r, not %s %d", what, sha.hex(), tuple(i)[:3], t, len(c))
        s = db.stream(sha)
        require((bytes(s.binsha), s.type, s.size) == (sha, t, len(c)), "%s: stream of %s is %r", what, sha.hex(), tuple(s)[:3])
        d = s.read()
        require(bytes(d) == c, "%s: content of %s differs", what, sha.hex())
        require(len(s.read()) == 0, "%s: %s has more after its end", what, sha.hex())

    def gone(db, sha, what):
        require(db.has_object(sha) is False and sha not in db, "%s: %s is present", what, sha.hex())
        for f in (db.info, db.stream):
            try:
                f(sha)
            except BadObject:
                continue
            require(False, "%s: the absent %s is answered", what, sha.hex())

    def check_target(i):
        db, have, root = targets[i]
        for sha in content:
            if sha in have:
                require(db.has_object(sha) is True, "target %d: %s is missing", i, sha.hex())
                same(db, sha, "target %d" % i)
            else:
                gone(db, sha, "target %d" % i)

    def copied(i, todo, result, before):
        """after a copy of todo"""
        db, have, root = targets[i]
        new = [s for s in dict.fromkeys(todo) if s not in have]
        require(result == len(new), "copy into %d reports %r, %d were added", i, result, len(new))
        have.update(new)
        if root is not None:
            now = listing(root)
            names = {os.path.join(s.hex()[:2], s.hex()[2:]) for s in new}
            require(set(now) == set(before) | names, "copy into %d: files %s", i, short(sorted(set(now) ^ set(before))))
            for n in before:
                require(now[n] == before[n], "copy into %d: touched %s", i, n)
            for n in names:
                try:
                    t, c = ref.parse_loose(now[n][3])
                except ValueError as e:
                    raise Violation("copied object %s is not valid: %s" % (n, e))
                require((t, c) == content[bytes.fromhex(n.replace("/", ""))], "copied object %s differs", n)
        require(mdb.size() == len(inmem), "copying changed the memory database")
        check_target(i)
        if new and len(new) < len(todo):
            ctx.nontrivial()
            ctx.label("partial copy")

    for op in case["ops"]:
        k = op[0]
        ctx.label(k)
        if k in ("store", "raw", "early", "target"):
            sha, t, c = objs[op[1] % len(objs)]
            before = [sorted(bytes(x) for x in mdb.sha_iter())]
            if k == "store":
                src = Source(c + ref.content(["rand", op[3], 3]), op[2])
                ist = IStream(t if op[1] % 2 else t.decode(), len(c), src)
                r = mdb.store(ist)
                require(r.binsha == sha and ist.binsha == sha, "stored as %s instead of %s", short(r.binsha), sha.hex())
                require(src.pos == len(c), "%d bytes taken from the source, not %d", src.pos, len(c))
                inmem.add(sha)
            elif k == "raw":
                b = BytesIO(ref.loose_bytes(t, c, op[2]))
                r = mdb.store(IStream(t, len(c), b, sha))
                require(r.binsha == sha, "stored as %s instead of %s", short(r.binsha), sha.hex())
                n = len(b.getvalue())       # the caller goes on using his buffer
                b.seek(0)
                b.write(bytes(n))
                inmem.add(sha)
            elif k == "target":
                db, have, root = targets[op[2]]
                if sha not in have:
                    db.store(IStream(t, len(c), BytesIO(c)))
                    have.add(sha)
            elif c:
                try:
                    mdb.store(IStream(t, len(c), BytesIO(c[:-op[2]] if op[2] < len(c) else b"")))
                except Exception:
                    pass
                else:
                    require(False, "a source which ends early was stored")
                require([sorted(bytes(x) for x in mdb.sha_iter())] == before, "a refused object is in the database")
        elif k == "open" and inmem:
            sha = sorted(inmem)[op[1] % len(inmem)]
            streams.append([mdb.stream(sha), sha, 0])
        elif k == "read" and streams:
            e = streams[op[1] % len(streams)]
            c = content[e[1]][1]
            d = bytes(e[0].read(op[2]))
            want = c[e[2]:] if op[2] < 1 else c[e[2]:e[2] + op[2]]
            require(d == want, "read(%d) at %d of %s: %d bytes, expected %d (or other bytes)", op[2], e[2], e[1].hex(), len(d), len(want))
            e[2] += len(want)
            if len([x for x in streams if x[1] == e[1]]) > 1:
                ctx.nontrivial()
                ctx.label("several streams")
        elif k == "seek" and streams:
            e = streams[op[1] % len(streams)]
            e[0].stream.seek(0) if not hasattr(e[0], "seek") else e[0].seek(0)
            e[2] = 0
        elif k == "query":
            sha = objs[op[1] % len(objs)][0]
            if sha in inmem:
                require(mdb.has_object(sha) is True and sha in mdb, "%s is missing", sha.hex())
                same(mdb, sha, "memory")
            else:
                gone(mdb, sha, "memory")
        elif k in ("copy", "absent", "blocked"):
            i = op[1]
            pool = sorted(inmem)
            todo = [pool[x % len(pool)] for x in op[2]] if pool else []
            db, have, root = targets[i]
            before = listing(root) if root else None
            if k == "absent":
                bad = b"\x17" * 20
                sel = todo + [bad] + pool[:1]
                try:
                    mdb.stream_copy(sel, db)
                except Exception:       # whichever
                    pass
                else:
                    require(False, "an absent object was copied")
                gone(db, bad, "target %d" % i)
                have.update(s for s in sel if s in inmem and db.has_object(s))
                check_target(i)
                continue
            if k == "blocked":
                # the directory of one object cannot be created
                new = [s for s in dict.fromkeys(todo) if s not in have]
                new = [s for s in new if not os.path.lexists(os.path.join(root, s.hex()[:2]))]
                if not new:
                    continue
                bad = new[op[3] % len(new)]
                block = os.path.join(root, bad.hex()[:2])
                with open(block, "wb"):
                    pass
                try:
                    r = mdb.stream_copy(todo, db)
                except Exception:       # whichever
                    pass
                else:
                    require(False, "copying an object which cannot be stored reports %r", r)
                finally:
                    os.remove(block)
                gone(db, bad, "target %d" % i)
                have.update(s for s in todo if db.has_object(s))
                check_target(i)
                continue
            how = op[3]
            if how == "all":
                todo = list(mdb.sha_iter())
                r = mdb.stream_copy(mdb.sha_iter(), db)
            else:
                r = mdb.stream_copy({"list": list, "iter": iter, "tuple": tuple}[how](todo), db)
            copied(i, [bytes(s) for s in todo], r, before)
        ids = sorted(bytes(s) for s in mdb.sha_iter())
        require(ids == sorted(inmem), "ids are %s, not %s", short([s.hex() for s in ids]), short([s.hex() for s in sorted(inmem)]))
        require(mdb.size() == len(inmem), "size is %r, not %d", mdb.size(), len(inmem))
    for sha in content:
        if sha in inmem:
            for _ in range(2):
                same(mdb, sha, "memory")
        else:
            gone(mdb, sha, "memory")
    for e in streams:
        c = content[e[1]][1]
        require(bytes(e[0].read()) == c[e[2]:], "the rest of %s from %d differs", e[1].hex(), e[2])
    for i in range(4):
        check_target(i)
        if targets[i][2]:
            have = sorted(targets[i][1])
            if have:
                for sha, o in zip(have, ref.git_cat(gds[i], have)):
                    require(o == content[sha], "git finds %s for %s", short(o and (o[0], len(o[1]))), sha.hex())


def sections():
    return [Section("histories", body, strategy(1500, 24), quick=3500, thorough=50000),
            Section("larger", body, strategy(300000, 8), quick=120, thorough=5000)]
