"""C26 What was obtained stays usable."""
import gc
import os
import struct
import sys
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import Section, require, short

RULE = ("a case is a store of loose objects, packs and an alternate, and a history of obtaining streams, infos and walks over packs, of reading, rewinding, closing and dropping them, "
        "of objects pruned, packs removed and everything repacked, of cache updates, databases dropped, maps collected or crowded out by huge ones, and of forks; "
        "non-trivial = something was read from a stream or walk after the file it came from had been removed, or its database dropped")
ASSUMPTIONS = ["files are removed or replaced by renaming, not changed in place", "the shared cache of file maps is gitdb.util.mman"]

VIAS = ["git", "git", "git", "loose", "packed", "entity", "mem"]


def strategy(maxn, maxops):
    def s():
        obj = st.tuples(gen.types(), gen.contents(maxn, 30)).map(list)
        # contents which begin alike, so that packs hold chains of deltas
        family = st.tuples(gen.types(), st.sampled_from(["rand", "rand", "text", "mix"]), st.integers(0, 9), st.lists(gen.sizes(maxn), min_size=2, max_size=6)).map(
            lambda f: [[f[0], [f[1], n, f[2]]] for n in f[3]])
        objs = st.one_of(st.lists(obj, min_size=1, max_size=7), family, family, st.tuples(family, st.lists(obj, min_size=1, max_size=3)).map(lambda x: x[0] + x[1]))
        i, k, n = st.one_of(st.integers(0, 2), st.integers(0, 40)), st.one_of(st.integers(0, 2), st.integers(0, 40)), st.one_of(st.integers(1, 9), st.integers(1, 700), st.integers(1, maxn))
        how = st.one_of(st.integers(0, 1023), st.sampled_from([255, 511, 767]))
        pk = st.tuples(st.one_of(st.lists(i, min_size=1, max_size=5), st.just(list(range(7)))), how, st.integers(1, 3)).map(list)
        get = st.tuples(st.just("get"), i, st.sampled_from(VIAS)).map(list)
        read = st.tuples(st.just("read"), k, n).map(list)
        op = st.one_of(
            get, get, get, read, read, read,
            st.tuples(st.sampled_from(["all", "rewind", "close", "forget", "forget"]), k).map(list),
            st.tuples(st.sampled_from(["all", "rewind", "copy", "fork", "close"]), k).map(list),
            st.tuples(st.just("info"), i, st.sampled_from(VIAS)).map(list),
            st.tuples(st.just("walk"), i, st.sampled_from(["info", "stream", "file"])).map(list),
            st.tuples(st.just("next"), k, st.integers(1, 3)).map(list), st.tuples(st.just("next"), k, st.integers(1, 3)).map(list),
            st.tuples(st.sampled_from(["prune", "prune", "rmpack", "rmpack", "unpack"]), i).map(list),
            st.tuples(st.just("repack"), how).map(list),
            st.tuples(st.just("update"), st.booleans()).map(list),
            st.tuples(st.sampled_from(["drop", "drop", "collect", "gc"])).map(list),
            st.tuples(st.just("crowd"), st.integers(1, 9), st.booleans()).map(list))
        hold = st.one_of(st.lists(get, max_size=1), st.tuples(get, get).map(list), st.tuples(i, st.sampled_from(VIAS), st.sampled_from(VIAS)).map(lambda x: [["get", x[0], x[1]], ["get", x[0], x[2]]]),
                         st.lists(get, min_size=2, max_size=6))
        return st.fixed_dictionaries({"objs": objs, "packs": st.lists(pk, min_size=1, max_size=3),
                                      "loose": st.one_of(st.lists(i, max_size=4), st.just(list(range(7)))), "alt": st.lists(i, max_size=3), "hold": hold,
                                      "ops": st.one_of(st.lists(op, min_size=1, max_size=maxops), st.lists(op, min_size=8, max_size=maxops))})
    return s


class World:
    """what is on disk"""
    def __init__(self, case, ctx):
        self.objs = tree.resolve(case["objs"])
        self.content = {s: (t, c) for s, t, c in self.objs}
        self.root, self.alt = os.path.join(ctx.dir, "objects"), os.path.join(ctx.dir, "alt")
        self.pdir = os.path.join(self.root, "pack")
        self.top, self.n = ctx.dir, 0
        for r in (self.root, self.alt):
            os.makedirs(os.path.join(r, "pack"))
            os.makedirs(os.path.join(r, "info"))
        self.loose, self.packs = set(), []      # ids; [path, BuiltPack]
        self.inalt = set()
        for i in case["loose"]:
            self.put(self.pick(i))
        for ids, how, v in case["packs"]:
            self.pack([self.pick(i) for i in ids], how, v)
        for n, i in enumerate(case["alt"]):
            s = self.pick(i)
            t, c = self.content[s]
            if n % 2:
                bp = tree.make_pack([(s, t, c)], 0)
                ref.write_pack_files(bp, os.path.join(self.alt, "pack"))
            else:
                ref.write_loose(self.alt, s, ref.loose_bytes(t, c))
            self.inalt.add(s)
        with open(os.path.join(self.root, "info", "alternates"), "wb") as f:
            f.write(os.fsencode(self.alt) + b"\n")

    def pick(self, i):
        return self.objs[i % len(self.objs)][0]

    def put(self, s):
        if s not in self.loose:
            ref.write_loose(self.root, s, ref.loose_bytes(*self.content[s]))
            self.loose.add(s)

    def pack(self, ids, how, v):
        some = [(s,) + self.content[s] for s in dict.fromkeys(ids)]
        bp = tree.make_pack(some, how, v)
        p = os.path.join(self.pdir, "pack-%s.pack" % bp.packsha.hex())
        if all(q != p for q, _ in self.packs):
            self.n += 1
            tmp = os.path.join(self.top, "tmp%d" % self.n)
            for ext, data in ((".pack", bp.pack), (".idx", bp.idx)):
                with open(tmp, "wb") as f:
                    f.write(data)
                os.rename(tmp, p[:-5] + ext)
            self.packs.append((p, bp))
        return p

    def rmpack(self, i):
        p, bp = self.packs.pop(i % len(self.packs))
        os.remove(p[:-5] + ".idx")
        os.remove(p)

    def prune(self, s):
        h = s.hex()
        os.remove(os.path.join(self.root, h[:2], h[2:]))
        if not os.listdir(os.path.join(self.root, h[:2])):
            os.rmdir(os.path.join(self.root, h[:2]))
        self.loose.discard(s)

    def packed(self):
        return {e.sha for _, bp in self.packs for e in bp.ents}


class Held:
    """a stream: its object, position, and what it came from"""
    def __init__(self, o, sha, typ, content, origin, via):
        self.o, self.sha, self.type, self.content, self.pos, self.origin, self.via, self.stale = o, sha, typ, content, 0, origin, via, False

    def check(self, what):
        require((bytes(self.o.binsha), self.o.type, self.o.size) == (self.sha, self.type, len(self.content)), "%s: %s is described as %r", what, self.sha.hex(), tuple(self.o)[:3])


def body(case, ctx):
    import gitdb.util
    from gitdb.base import IStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB, PackedDB
    from gitdb.pack import PackEntity, PackFile
    mman = getattr(gitdb.util, "mman", None)
    w = World(case, ctx)
    held, walks, infos, crowd, dbs = [], [], [], [], {}

    def clean():
        for x in (held, walks, infos, crowd, dbs):
            x.clear()
        gc.collect(0)
        if mman is not None:
            try:
                mman.collect()
            finally:
                mman.__init__()     # otherwise a case would depend on the ones before it
    clean()
    ctx.cleanup(clean)

    def database(via, sha):
        """an up-to-date database which may have the object, and whether it must have it"""
        if via == "mem":
            if "mem" not in dbs:
                dbs["mem"] = MemoryDB()
            m = dbs["mem"]
            if not m.has_object(sha):
                t, c = w.content[sha]
                m.store(IStream(t, len(c), BytesIO(c)))
            return m, True
        if via == "entity":
            for p, bp in w.packs:
                if any(e.sha == sha for e in bp.ents):
                    if p not in dbs:
                        dbs[p] = PackEntity(p)
                    return dbs[p], True
            return None, False
        if via not in dbs:
            dbs[via] = {"git": lambda: GitDB(w.root), "loose": lambda: LooseObjectDB(w.root), "packed": lambda: PackedDB(w.pdir)}[via]()
        db = dbs[via]
        db.update_cache(force=True)
        return db, sha in {"git": w.loose | w.packed() | w.inalt, "loose": w.loose, "packed": w.packed()}[via]

    def read(h, n, what):
        if h.stale:
            ctx.nontrivial()
            ctx.label("read afterwards")
        d = bytes(h.o.read(n) if n else h.o.read())
        want = h.content[h.pos:h.pos + n] if n else h.content[h.pos:]
        require(d == want, "%s: read(%s) at %d of %s (%d bytes) from %s gives %s instead of %s", what, n or "", h.pos, h.sha.hex(), len(h.content), h.via, short(d), short(want))
        h.pos += len(want)

    def entry(x, o, what):
        """the next one of a walk"""
        path, order, j, kind, stale, it = x
        require(j < len(order), "%s: a walk yields more entries than there are", what)
        e = order[j]
        x[2] += 1
        if stale:
            ctx.nontrivial()
            ctx.label("walked afterwards")
        if kind == "file":
            require((o.pack_offset, o.type_id) == (e.offset, e.kind), "%s: a walk yields %r instead of the entry at %d", what, tuple(o)[:3], e.offset)
            d = bytes(o.stream.read())
            require(d == e.data, "%s: the data of the entry at %d is %s instead of %s", what, e.offset, short(d), short(e.data))
        else:
            require((bytes(o.binsha), o.type, o.size) == (e.sha, e.type, len(e.content)), "%s: a walk describes %s as %r", what, e.sha.hex(), tuple(o)[:3])
            if kind == "stream":
                d = bytes(o.read())
                require(d == e.content, "%s: a walk gives %s as content of %s", what, short(d), e.sha.hex())

    def gone(path=None):
        """note that files, or all databases, are gone"""
        for h in held:
            if path is None or path in h.origin or h.via == "git":
                h.stale = True
        for x in walks:
            if path is None or path == x[0]:
                x[4] = True

    for num, op in enumerate(case.get("hold", []) + case["ops"]):
        k = op[0]
        what = "%d %s" % (num, k)
        ctx.label(k)
        if k in ("get", "info"):
            sha = w.pick(op[1])
            db, must = database(op[2], sha)
            if not must:
                db = None
                continue
            t, c = w.content[sha]
            if k == "get":
                o = db.stream(sha)
                h = Held(o, sha, t, c, {sha} | {p for p, bp in w.packs if any(e.sha == sha for e in bp.ents)}, op[2])
                h.check(what)
                if len(held) > 12:
                    held.pop(0)
                held.append(h)
            else:
                o = db.info(sha)
                infos.append((o, sha, t, len(c)))
            o = db = None
        elif k == "walk":
            if w.packs:
                p, bp = w.packs[op[1] % len(w.packs)]
                order = sorted(bp.ents, key=lambda e: e.offset)
                e = PackFile(p) if op[2] == "file" else PackEntity(p)
                if op[2] != "file":
                    order = sorted(order, key=lambda e: e.sha)
                walks.append([p, order, 0, op[2], False, iter(e.info_iter() if op[2] == "info" else e.stream_iter())])
                entry(walks[-1], next(walks[-1][5]), what)      # begun
                e = None
        elif k == "next":
            if walks:
                x = walks[op[1] % len(walks)]
                for _ in range(op[2]):
                    if x[2] < len(x[1]):
                        entry(x, next(x[5]), what)
                x = None
        elif k == "prune":
            s = w.pick(op[1])
            if s in w.loose:
                w.prune(s)
                gone(s)
        elif k == "rmpack":
            if w.packs:
                p = w.packs[op[1] % len(w.packs)][0]
                w.rmpack(op[1])
                gone(p)
                dbs.pop(p, None)
        elif k == "unpack":
            if w.packs:
                p, bp = w.packs[op[1] % len(w.packs)]
                for e in bp.ents:
                    w.put(e.sha)
                w.rmpack(op[1])
                gone(p)
                dbs.pop(p, None)
        elif k == "repack":
            everything = sorted(w.loose | w.packed())
            if everything:
                p = w.pack(everything[::-1] if op[1] & 1 else everything, op[1], 2)
                for i in reversed(range(len(w.packs))):
                    if w.packs[i][0] != p:
                        q = w.packs[i][0]
                        w.rmpack(i)
                        gone(q)
                        dbs.pop(q, None)
                for s in list(w.loose):
                    w.prune(s)
                    gone(s)
        elif k == "update":
            for via in ("git", "loose", "packed"):
                if via in dbs:
                    dbs[via].update_cache(force=op[1])
        elif k == "drop":
            dbs.clear()
            gone()
        elif k == "gc":
            gc.collect(0)
        elif k == "collect":
            gc.collect(0)
            if mman is not None:
                mman.collect()
        elif k == "crowd":
            p = os.path.join(ctx.dir, "huge%d" % num)
            with open(p, "wb") as f:
                f.write(b"PACK" + struct.pack(">LL", 2, 0))
                f.truncate(op[1] << 30)
            h = PackFile(p)
            require(h.size() == 0, "%s: %r objects", what, h.size())
            if op[2]:
                crowd.append(h)
            h = None
            os.remove(p)
        elif held:
            h = held[op[1] % len(held)]
            if k == "read":
                read(h, op[2], what)
            elif k == "all":
                read(h, 0, what)
            elif k == "rewind":
                h.o.stream.seek(0)
                h.pos = 0
            elif k == "forget":
                held.remove(h)
            elif k == "close":
                if hasattr(h.o.stream, "close"):
                    h.o.stream.close()
                held.remove(h)
            elif k == "copy":
                m = MemoryDB()
                i = m.store(IStream(h.type, len(h.content) - h.pos, h.o.stream))
                require(bytes(i.binsha) == ref.obj_id(h.type, h.content[h.pos:]), "%s: the rest of %s is stored as %s", what, h.sha.hex(), bytes(i.binsha).hex())
                h.pos = len(h.content)
            elif k == "fork":
                want = h.content[h.pos:]
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if not pid:
                    r = 3
                    try:
                        d = bytes(h.o.read())
                        held.clear()
                        walks.clear()
                        dbs.clear()
                        h.o.stream.seek(0)
                        r = 0 if d == want and bytes(h.o.read()) == h.content else 1
                    except BaseException:
                        r = 2
                    finally:
                        os._exit(r)
                r = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                require(r == 0, "%s: a child process reads %s wrongly (%d)", what, h.sha.hex(), r)
            h = None
    for h in held:
        h.check("at the end")
        read(h, 0, "at the end")
        h.o.stream.seek(0)
        h.pos = 0
        read(h, 0, "at the end, again")
    for x in walks:
        for o in x[5]:
            entry(x, o, "at the end")
        require(x[2] == len(x[1]), "a walk ends after %d of %d entries", x[2], len(x[1]))
    for o, sha, t, n in infos:
        require((bytes(o.binsha), o.type, o.size) == (sha, t, n), "at the end, %s is described as %r", sha.hex(), tuple(o)[:3])
    o = h = x = None


def sections():
    return [Section("histories", body, strategy(900, 25), quick=6000, thorough=160000),
            Section("large", body, strategy(300000, 15), quick=700, thorough=15000)]
