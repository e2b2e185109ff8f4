"""C27 A query which fails for a passing reason leaves no trace."""
import errno
import gc
import os
import resource

from hypothesis import strategies as st

from .. import fi, gen, ref, tree
from ..engine import HarnessError, Section, Violation, require, short

LEVEL = "fault_enumeration"
RULE = ("a case is a store, a kind of database or pack, operations before, a change on disk, and a query; each call which the query makes to the system (open, stat, list, read, map) fails in turn, "
        "or all which need a file descriptor do; non-trivial = a call failed, and the query noticed")
ASSUMPTIONS = ["a query may answer that an object is missing while calls fail (gitdb ignores unreadable alternates and loose objects on purpose)",
               "if the query didn't raise, or the disk changed, update_cache() may be needed afterwards"]

ERRS = [errno.EMFILE, errno.ENOMEM, errno.EIO, errno.EACCES, errno.ENFILE]
KINDS = ["git", "git", "git", "packed", "packed", "loose", "ref", "entity", "index", "pack"]
QUERIES = ["has", "info", "stream", "iter", "size", "partial", "update", "force", "dbs", "miss"]


def strategy():
    obj = st.tuples(gen.types(), gen.contents(500, 30)).map(list)
    family = st.tuples(gen.types(), st.sampled_from(["rand", "text"]), st.integers(0, 9), st.lists(st.integers(1, 500), min_size=2, max_size=4)).map(
        lambda f: [[f[0], [f[1], n, f[2]]] for n in f[3]])
    i = st.integers(0, 20)
    pk = st.tuples(st.lists(i, min_size=1, max_size=4), st.integers(0, 1023), st.integers(1, 3)).map(list)
    q = st.tuples(st.sampled_from(QUERIES), i).map(list)
    return st.fixed_dictionaries({
        "objs": st.one_of(st.lists(obj, min_size=1, max_size=5), st.tuples(family, st.lists(obj, max_size=2)).map(lambda x: x[0] + x[1])),
        "packs": st.lists(pk, min_size=1, max_size=3), "loose": st.lists(i, max_size=3), "alts": st.lists(st.tuples(i, st.booleans()).map(list), max_size=2),
        "kind": st.sampled_from(KINDS), "warm": st.one_of(st.just([]), st.lists(q, min_size=1, max_size=3)),
        "change": st.one_of(st.none(), st.sampled_from(["add", "remove", "loose", "alt"])), "q": q, "err": st.integers(0, len(ERRS) - 1),
        "more": st.lists(q, max_size=2), "free": st.integers(0, 4)})


class Store:
    def __init__(self, case, ctx):
        self.objs = tree.resolve(case["objs"])
        self.content = {s: (t, c) for s, t, c in self.objs}
        self.root = os.path.join(ctx.dir, "objects")
        self.pdir = os.path.join(self.root, "pack")
        self.stash = os.path.join(ctx.dir, "stash")
        os.makedirs(self.pdir)
        os.makedirs(os.path.join(self.root, "info"))
        os.makedirs(self.stash)
        self.loose, self.packs, self.alts = set(), [], []
        for i in case["loose"]:
            self.put(self.root, self.pick(i))
            self.loose.add(self.pick(i))
        for ids, how, v in case["packs"]:
            bp = tree.make_pack([(s,) + self.content[s] for s in dict.fromkeys(self.pick(i) for i in ids)], how, v)
            if all(bp.packsha != b.packsha for b in self.packs):
                ref.write_pack_files(bp, self.pdir)
                self.packs.append(bp)
        for n, (i, packed) in enumerate(case["alts"]):
            r = os.path.join(ctx.dir, "alt%d" % n)
            os.makedirs(os.path.join(r, "pack"))
            os.makedirs(os.path.join(r, "info"))
            s = self.pick(i)
            if packed:
                ref.write_pack_files(tree.make_pack([(s,) + self.content[s]], 0), os.path.join(r, "pack"))
            else:
                self.put(r, s)
            self.alts.append((r, s))
        self.write_alts(len(self.alts) - (case["change"] == "alt"))
        self.tick = 1000000000
        self.touch()
        self.moved = []
        self.case = case

    def write_alts(self, n):
        self.nalts = n = max(0, n)
        p = os.path.join(self.root, "info", "alternates")
        if n:
            with open(p, "wb") as f:
                f.write(b"".join(os.fsencode(r) + b"\n" for r, _ in self.alts[:n]))
        elif os.path.exists(p):
            os.remove(p)

    def touch(self):
        """another modification time for the directory of packs"""
        self.tick += 10
        os.utime(self.pdir, (self.tick, self.tick))

    def pick(self, i):
        return self.objs[i % len(self.objs)][0]

    def put(self, root, s):
        ref.write_loose(root, s, ref.loose_bytes(*self.content[s]))

    def stashed(self, bp, away):
        for ext in ((".idx", ".pack") if away else (".pack", ".idx")):
            n = "pack-%s%s" % (bp.packsha.hex(), ext)
            a, b = os.path.join(self.pdir, n), os.path.join(self.stash, n)
            os.rename(*((a, b) if away else (b, a)))

    def before(self):
        """the state before the change"""
        if self.case["change"] == "add":
            self.away = self.packs[-1]
            self.stashed(self.away, True)
        self.touch()

    def change(self):
        k = self.case["change"]
        if k == "add":
            self.stashed(self.packs[-1], False)
        elif k == "remove":
            self.stashed(self.packs[-1], True)
        elif k == "loose":
            self.put(self.root, self.objs[0][0])
        elif k == "alt":
            self.write_alts(len(self.alts))
        if k in ("add", "remove"):
            self.touch()

    def undo(self):
        k = self.case["change"]
        if k == "remove":
            self.stashed(self.packs[-1], False)
        elif k == "loose" and self.objs[0][0] not in self.loose:
            h = self.objs[0][0].hex()
            os.remove(os.path.join(self.root, h[:2], h[2:]))
        elif k == "alt":
            self.write_alts(len(self.alts) - 1)

    def members(self, kind, changed):
        """ids, with repetitions"""
        k = self.case["change"]
        out = []
        if kind in ("git", "packed"):
            ps = self.packs[:-1] if (k == "add" and not changed) or (k == "remove" and changed) else self.packs
            out += [e.sha for p in ps for e in p.ents]
        if kind in ("git", "loose"):
            out += self.loose | ({self.objs[0][0]} if k == "loose" and changed else set())
        if kind in ("git", "ref"):
            out += [s for _, s in self.alts[:len(self.alts) if changed or k != "alt" else max(0, len(self.alts) - 1)]]
        if kind in ("entity", "index", "pack"):
            out += [e.sha for e in self.packs[0].ents]
        return out


def fresh(w, kind):
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    p = os.path.join(w.pdir, "pack-%s.pack" % w.packs[0].packsha.hex())
    return {"git": lambda: GitDB(w.root), "packed": lambda: PackedDB(w.pdir), "loose": lambda: LooseObjectDB(w.root),
            "ref": lambda: ReferenceDB(os.path.join(w.root, "info", "alternates")), "entity": lambda: PackEntity(p),
            "index": lambda: PackIndexFile(p[:-4] + "idx"), "pack": lambda: PackFile(p)}[kind]()


ABSENT = b"\x13" * 20


def query(w, db, kind, q, have, strict):
    """ask, and compare the answer with the ids the store has (strict), or with any it had or could have"""
    k, i = q
    s = w.pick(i)
    t, c = w.content[s]
    bp = w.packs[0]
    if kind == "index":
        ents = sorted(bp.ents, key=lambda e: e.sha)
        n = db.size()
        require(n == len(ents), "an index has %r entries instead of %d", n, len(ents))
        j = i % n
        e = ents[j]
        got = {"has": lambda: db.sha_to_index(e.sha), "partial": lambda: db.partial_sha_to_index(e.sha[:8], 16), "miss": lambda: db.sha_to_index(ABSENT),
               "iter": lambda: [bytes(db.sha(x)) for x in range(n)], "size": lambda: sorted(db.offsets()), "info": lambda: db.offset(j),
               "force": lambda: bytes(db.packfile_checksum())}.get(k, lambda: tuple(db.entry(j)[:2]))()
        want = {"has": j, "partial": j, "miss": None, "iter": [x.sha for x in ents], "size": sorted(x.offset for x in ents), "info": e.offset, "force": bp.packsha}.get(k, (e.offset, e.sha))
        require(got == want, "an index answers %r instead of %r to %s", got, want, k)
        return
    if kind == "pack":
        ents = sorted(bp.ents, key=lambda e: e.offset)
        e = ents[i % len(ents)]
        if k in ("iter", "update", "force"):
            got = [(o.pack_offset, o.type_id, bytes(o.stream.read())) for o in db.stream_iter()]
            require(got == [(x.offset, x.kind, x.data) for x in ents], "a walk over a pack gives %s", short(got))
        elif k == "size":
            require(db.size() == len(ents), "a pack has %r entries", db.size())
        elif k == "miss":
            require(bytes(db.checksum()) == bp.packsha, "a pack's checksum is %r", bytes(db.checksum()))
        elif k == "info":
            o = db.info(e.offset)
            require((o.pack_offset, o.type_id, o.size) == (e.offset, e.kind, len(e.data)), "a pack describes the entry at %d as %r", e.offset, tuple(o))
        else:
            o = db.stream(e.offset)
            d = bytes(o.stream.read())
            require((o.type_id, d) == (e.kind, e.data), "a pack gives %s as data of the entry at %d", short(d), e.offset)
        return
    if kind == "entity":
        ents = {e.sha: e for e in bp.ents}
        s = sorted(ents)[i % len(ents)]
        e = ents[s]
        if k == "iter":
            got = [(bytes(o.binsha), o.type, o.size, bytes(o.read())) for o in db.stream_iter()]
            require(got == [(x, ents[x].type, len(ents[x].content), ents[x].content) for x in sorted(ents)], "a walk over a pack gives %s", short(got))
        elif k in ("force", "update"):
            r = db.is_valid_stream(s, use_crc=k == "force" and bp.version == 2)
            require(r is True, "an intact object is reported as damaged")
        elif k == "size":
            got = [(bytes(o.binsha), o.type, o.size) for o in db.info_iter()]
            require(got == [(x, ents[x].type, len(ents[x].content)) for x in sorted(ents)], "a walk over a pack gives %s", short(got))
        elif k == "info":
            o = db.info(s)
            require((bytes(o.binsha), o.type, o.size) == (s, e.type, len(e.content)), "%s is described as %r", s.hex(), tuple(o))
        else:
            o = db.stream(s)
            d = bytes(o.read())
            require((o.type, o.size, d) == (e.type, len(e.content), e.content), "%s is described as %r with content %s", s.hex(), tuple(o)[:3], short(d))
        return
    if k == "has":
        r = db.has_object(s)
        require(r in (True, False) and (r == (s in have) if strict else r <= (s in have)), "has_object(%s) is %r", s.hex(), r)
    elif k == "miss":
        require(db.has_object(ABSENT) is False, "an object which doesn't exist is found")
    elif k in ("info", "stream"):
        from gitdb.exc import BadObject
        try:
            o = db.info(s) if k == "info" else db.stream(s)
        except BadObject:
            require(not strict or s not in have, "%s isn't found any more", s.hex())
            return
        require(s in have, "%s is found", s.hex())
        require((bytes(o.binsha), o.type, o.size) == (s, t, len(c)), "%s is described as %r", s.hex(), tuple(o)[:3])
        if k == "stream":
            d = bytes(o.read())
            require(d == c, "the content of %s is %s", s.hex(), short(d))
    elif k == "iter":
        got = sorted(bytes(x) for x in db.sha_iter())
        if strict:
            require(got == sorted(have), "the enumeration has %d ids instead of %d", len(got), len(have))
        else:
            require(set(got) <= set(have), "the enumeration contains %r", [x.hex() for x in set(got) - set(have)])
    elif k == "size":
        n = db.size()
        require(n == len(have) if strict else 0 <= n <= len(have), "the size is %r instead of %d", n, len(have))
    elif k == "partial":
        from gitdb.exc import BadObject
        if hasattr(type(db), "partial_to_complete_sha_hex"):
            f = lambda: db.partial_to_complete_sha_hex(s.hex()[:20])
        else:
            f = lambda: db.partial_to_complete_sha(s[:10], 20)
        try:
            r = f()
        except BadObject:
            require(not strict or s not in have, "the abbreviation of %s isn't found any more", s.hex())
        else:
            require(bytes(r) == s and s in have, "the abbreviation of %s leads to %r", s.hex(), r)
    elif k in ("update", "force"):
        if kind != "loose":
            db.update_cache(force=k == "force")
    elif k == "dbs":
        if kind in ("git", "ref"):
            db.databases()
        elif kind == "packed":
            db.entities()


def verify(w, db, kind, have, what):
    for k in ("has", "info", "stream"):
        for i in range(len(w.objs)):
            ask(w, db, kind, [k, i], have, what)
    for k in ("miss", "iter", "size", "partial", "force" if kind in ("entity", "index", "pack") else "miss"):
        ask(w, db, kind, [k, 0], have, what)


def ask(w, db, kind, q, have, what):
    try:
        query(w, db, kind, q, have, True)
    except Violation as e:
        raise Violation("%s: afterwards, %s" % (what, e))
    except Exception as e:
        raise Violation("%s: afterwards, %s fails with %s: %s" % (what, q[0], type(e).__name__, e))


def body(case, ctx):
    from gitdb.db import GitDB, ReferenceDB     # everything is imported before descriptors run out
    import gitdb.pack
    import gitdb.stream
    import gitdb.util
    mman = getattr(gitdb.util, "mman", None)
    w = Store(case, ctx)
    kind = case["kind"]
    if kind in ("entity", "index", "pack"):
        case = dict(case, change=None)
        w.case = case
    changed = case["change"] is not None
    pre = w.members(kind, False)
    have = w.members(kind, True)
    either = pre + have

    def clean():
        gc.collect(0)
        if mman is not None:
            mman.collect()
            mman.__init__()
    clean()
    ctx.cleanup(clean)
    ctx.label(kind)
    ctx.label(case["q"][0])

    def run(around, what, queries, single):
        """-> whether the query raised"""
        w.before()
        nfds = len(os.listdir("/proc/self/fd"))
        db = fresh(w, kind)
        try:
            for q in case["warm"]:
                ask(w, db, kind, q, pre, "before")
            w.change()
            raised = noticed = False
            a = None
            try:
                with around() as a:
                    for q in queries:
                        try:
                            query(w, db, kind, q, either, False)
                        except Violation as e:
                            raise Violation("%s: %s" % (what, e))
                        except Exception as e:
                            raised = True
                            what += ", which raises %s" % type(e).__name__
            finally:
                if a is not None:
                    noticed = a.reached
            if noticed and raised:
                ctx.nontrivial()
            if kind in ("git", "packed", "ref") and (changed or not (raised and single)):
                try:
                    db.update_cache()
                except Exception as e:
                    raise Violation("%s: afterwards, the cache can't be updated: %s: %s" % (what, type(e).__name__, e))
            verify(w, db, kind, have, what)
        finally:
            db = None
            w.undo()
        clean()
        n = len(os.listdir("/proc/self/fd"))
        if n != nfds:
            gc.collect()
            clean()
            n = len(os.listdir("/proc/self/fd"))
        require(n == nfds, "%s: %d descriptors are left", what, n - nfds)
        return a

    q = case["q"]
    a = run(lambda: fi.Armed(ctx.dir, fi.COUNT, also=True), "%s of %s" % (q[0], kind), [q], True)
    calls = a.calls
    for k, c in enumerate(calls[:60]):
        if c.kind == "close":
            continue
        e = ERRS[case["err"]]
        if c.kind not in ("open", "dir") and e in (errno.EMFILE, errno.ENFILE):
            e = errno.ENOMEM if c.kind in ("mmap", "stat") else errno.EIO
        ctx.label("fail " + c.kind)
        run(lambda: fi.Armed(ctx.dir, fi.FAIL, k, e, also=True), "%s of %s while call %d, %s, fails with %s" % (q[0], kind, k, c, errno.errorcode[e]), [q], True)
    run(lambda: Few(case["free"]), "%s of %s with %d free descriptors" % (", ".join(x[0] for x in [q] + case["more"]), kind, case["free"]), [q] + case["more"], False)


class Few:
    """no more descriptors than this"""
    reached = True

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
        fds = [os.open(os.devnull, os.O_RDONLY) for _ in range(self.n + 1)]     # the lowest ones are taken first
        for fd in fds:
            os.close(fd)
        lim = fds[-1]
        if lim <= 0:
            raise HarnessError("no descriptors")
        resource.setrlimit(resource.RLIMIT_NOFILE, (lim, self.old[1]))
        return self

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_NOFILE, self.old)


def sections():
    return [Section("faults", body, strategy, quick=2000, thorough=60000)]
