"""C17 File handles are released."""
import gc
import os
import resource
from io import BytesIO

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import HarnessError, Section, require, short
from .c01 import Source

RULE = ("a case is a set of loose and packed objects, some of their files damaged, and a history of operations on databases, packs, streams and locked files, many of "
        "which fail, some under a limit of the size of files and some repeated far more often than there are descriptors; non-trivial = at least one operation failed and one stream was handed out")
ASSUMPTIONS = ["the process-wide cache of file maps (gitdb.util.mman, documented as to be asked to free unused maps) is asked to do so at the end of a case",
               "the garbage collector runs after operations which fail"]

FROZEN = [False]


class Broken(Exception):
    pass


class Failing(Source):
    def __init__(self, data, pieces, at, exc):
        super().__init__(data, pieces)
        self.at, self.exc = at, exc

    def read(self, n=-1):
        if self.calls >= self.at:
            raise self.exc
        return super().read(n)


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[int(f)] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out


def below(links, d):
    return sorted(x for x in links.values() if x.startswith(d + "/"))


DAMAGE = ["cut", "empty", "garbage", "head", "dir", "trunc0", "header", "noread"]
KINDS = ["stream", "stream", "stream", "read", "packstream", "store", "store", "store-fail", "store-fail", "store-short", "store-blocked", "store-raw", "store-noroot", "redirect", "info", "info", "has", "stream",
         "stream", "stream", "read", "read", "drop", "drop", "full", "iter", "iter-part", "abbrev", "pack", "pack-fail", "pack-fail", "pack-count", "pack-nodir", "entity",
         "entity", "verify", "walk", "walk-part", "lock-write", "lock-read", "lock-end", "lock-missing", "lock-twice", "lock-taken", "mem", "update", "file", "newdb",
         "packstream", "index"]


def strategy(maxops, maxn):
    def s():
        obj = st.tuples(gen.types(), gen.contents(maxn, 30)).map(list)
        op = st.tuples(st.sampled_from(KINDS), st.integers(0, 60), st.integers(0, 3000), st.sampled_from([1, 1, 1, 1, 1, 1, 1, 50, 0])).map(list)
        return st.fixed_dictionaries({
            "objs": st.lists(obj, min_size=1, max_size=8), "loose": st.lists(st.integers(0, 60), min_size=1, max_size=6),
            "packs": st.lists(st.tuples(st.lists(st.integers(0, 60), min_size=1, max_size=6), st.integers(0, 1023), st.integers(1, 3)).map(list), max_size=2),
            "damage": st.lists(st.tuples(st.integers(0, 20), st.sampled_from(DAMAGE), st.integers(0, 300)).map(list), max_size=3),
            "alt": st.booleans(), "fd0": st.sampled_from([False, False, False, True]), "ops": gen.histories(op, 3, maxops)})
    return s


def damage(path, how, x):
    with open(path, "rb") as f:
        data = f.read()
    os.remove(path)
    if how == "dir":
        os.mkdir(path)
        return
    if how == "cut":
        data = data[:x % (len(data) + 1)]
    elif how in ("empty", "trunc0"):
        data = b""
    elif how == "garbage":
        data = ref.content(["rand", x, 1])
    elif how == "head":
        data = bytes([data[0] ^ 255]) + data[1:]
    elif how == "header":
        data = ref.zenc([b"blob", b"blob 5", b"blob x\0abc", b"\0", b"blob 3\0abc", b"blorb 3\0abc"][x % 6])
    with open(path, "wb") as f:
        f.write(data)
    if how == "noread":
        os.chmod(path, 0)


def body(case, ctx):
    from gitdb.base import IStream, OStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB, PackedDB
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    from gitdb.stream import FlexibleSha1Writer
    from gitdb.util import LockedFD, file_contents_ro_filepath, file_contents_ro, mman
    if not FROZEN[0]:
        gc.collect()
        gc.freeze()
        FROZEN[0] = True
    objs = tree.resolve(case["objs"])
    top = ctx.dir
    root, alt = os.path.join(top, "o"), os.path.join(top, "alt")
    os.makedirs(os.path.join(root, "pack"))
    os.makedirs(os.path.join(alt, "pack"))
    files, packs = [], []
    for k in case["loose"]:
        sha, t, c = objs[k % len(objs)]
        p = os.path.join(root, sha.hex()[:2], sha.hex()[2:])
        if p not in files:
            ref.write_loose(root, sha, ref.loose_bytes(t, c, {"l": k % 10}))
            files.append(p)
    for n, (ids, how, v) in enumerate(case["packs"]):
        bp = tree.make_pack([objs[k % len(objs)] for k in dict.fromkeys(k % len(objs) for k in ids)], how, v)
        d = os.path.join(alt if n and case["alt"] else root, "pack")
        ref.write_pack_files(bp, d)
        base = os.path.join(d, "pack-" + bp.packsha.hex())
        if base not in packs:
            packs.append(base)
            files += [base + ".pack", base + ".idx"]
    if case["alt"]:
        os.makedirs(os.path.join(root, "info"))
        with open(os.path.join(root, "info", "alternates"), "w") as f:
            f.write(alt + "\n")
    for k, how, x in case["damage"]:
        if files:
            p = files.pop(k % len(files))
            damage(p, how, x)
    lockable = [os.path.join(top, "f0"), os.path.join(top, "f1")]
    for p in lockable:
        with open(p, "w") as f:
            f.write("content")
    blocked = os.path.join(top, "blocked")
    os.mkdir(blocked)
    if case.get("fd0"):
        ctx.free_fd0()
    before = fds()
    limit = resource.getrlimit(resource.RLIMIT_NOFILE)
    fsize = resource.getrlimit(resource.RLIMIT_FSIZE)
    ctx.cleanup(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, limit))
    ctx.cleanup(lambda: resource.setrlimit(resource.RLIMIT_FSIZE, fsize))
    if below(before, top):
        raise HarnessError("files are open before the case")
    state = {"failed": 0, "unread": 0}
    held = []               # [stream, 1 if it may hold a file]
    locks = []              # [LockedFD, path, 1 if it holds a file]
    dbs = [GitDB(root), LooseObjectDB(root), PackedDB(os.path.join(root, "pack"))]
    nfiles = lambda: 2 * len([f for d in (root, alt) for f in os.listdir(os.path.join(d, "pack"))]) + 2

    def pick(k):
        return dbs[k % len(dbs)]

    def sha_of(k):
        sha = objs[k % len(objs)][0]
        return sha if k % 7 else sha[:19] + bytes([sha[19] ^ 1])

    def entity(k):
        base = packs[k % len(packs)]
        return PackEntity(base + (".pack" if k % 2 else ".idx"))

    def items(k):
        out = [objs[(k + i) % len(objs)] for i in range(min(len(objs), 1 + k % 5))]
        return [OStream(sha, t, len(c), BytesIO(c)) for sha, t, c in out]

    def once(k, i, x):
        """-> streams to keep: raises whatever gitdb raises"""
        sha, t, c = objs[i % len(objs)]
        if k == "store":
            pick(i % 2).store(IStream(t, len(c), Source(c + b"more", [x % 100 + 1] if x % 2 else [])))
        elif k == "store-fail":
            exc = [OSError(5, "broken"), Broken(), KeyboardInterrupt(), ValueError("x")][x % 4]
            big = c + ref.content(["rand", x, 2])
            pick(i % 2).store(IStream(t, len(big), Failing(big, [max(1, len(big) // 4)], i % 4, exc)))
        elif k == "store-short":
            pick(i % 2).store(IStream(t, len(c) + 1 + x, BytesIO(c)))
        elif k == "store-blocked":
            # the directory of the object can't be made
            n = b"%d" % x
            h = ref.obj_id(b"blob", n).hex()
            p = os.path.join(blocked, h[:2])
            if not os.path.exists(p):
                with open(p, "w"):
                    pass
            LooseObjectDB(blocked).store(IStream(b"blob", len(n), BytesIO(n)))
        elif k == "store-raw":
            raw = ref.loose_bytes(t, c)
            pick(i % 2).store(IStream(t, len(c), Source(raw, []) if x % 2 else Failing(raw, [9], x % 3, Broken()), sha))
        elif k == "store-noroot":
            LooseObjectDB(os.path.join(top, "nothing")).store(IStream(t, len(c), BytesIO(c)))
        elif k == "redirect":
            db = LooseObjectDB(root)

            def fail(b):
                raise Broken()
            db.set_ostream(FlexibleSha1Writer(fail if x % 2 else len))
            db.store(IStream(t, len(c), BytesIO(c)))
        elif k == "info":
            pick(x).info(sha_of(i))
        elif k == "has":
            pick(x).has_object(sha_of(i))
        elif k == "stream":
            return [pick(x).stream(sha_of(i))]
        elif k == "full":
            pick(x).stream(sha_of(i)).read()
        elif k == "iter":
            list(pick(x).sha_iter())
        elif k == "iter-part":
            it = iter(pick(x).sha_iter())
            next(it, None)
        elif k == "abbrev":
            db = pick(x)
            h = sha_of(i).hex()[:4 + x % 37]
            if isinstance(db, PackedDB):
                db.partial_to_complete_sha(sha_of(i), 4 + x % 37)
            else:
                db.partial_to_complete_sha_hex(h)
        elif k == "pack":
            e = PackEntity.create(items(i), os.path.join(root, "pack"), None if x % 2 else len(items(i)), x % 10)
            if x % 3 == 0:
                e.info(objs[i % len(objs)][0])
        elif k == "pack-fail":
            l = items(i)
            exc = [OSError(5, "broken"), Broken(), KeyboardInterrupt()][x % 3]
            if x % 2:
                sha, t, c = objs[i % len(objs)]
                big = ref.content(["rand", x + 10, 2])
                l.append(OStream(sha, t, len(big), Failing(big, [], x % 2, exc)))
                PackEntity.create(l, os.path.join(root, "pack"))
            else:
                def g():
                    yield from l
                    raise exc
                PackEntity.create(g(), os.path.join(root, "pack"), len(l) + 1)
        elif k == "pack-count":
            PackEntity.create(items(i), os.path.join(root, "pack"), len(items(i)) + 1 + x % 3)
        elif k == "pack-nodir":
            PackEntity.create(items(i), os.path.join(top, "nothing"))
        elif k in ("entity", "packstream"):
            if packs:
                e = entity(x)
                if k == "entity":
                    e.info(sha_of(i))
                else:
                    return [e.stream(sha_of(i))]
        elif k == "index":
            if packs:
                ix = PackIndexFile(packs[i % len(packs)] + ".idx")
                n = ix.size()
                ix.sha_to_index(sha_of(x))
                if n:
                    ix.offset(x % n), ix.sha(x % n), ix.crc(x % n)
                ix.indexfile_checksum(), ix.packfile_checksum(), ix.offsets()
                if x % 2:
                    ix.close()
        elif k == "verify":
            if packs:
                entity(x).is_valid_stream(sha_of(i), bool(x % 2))
        elif k in ("walk", "walk-part"):
            if packs:
                p = PackFile(packs[i % len(packs)] + ".pack")
                n = 0
                for s in (entity(x).stream_iter() if x % 3 == 0 else p.stream_iter()):
                    n += 1
                    if k == "walk-part" and n > x % 3:
                        break
                    if x % 2:
                        s.read(5)
                p.checksum(), p.version(), p.size()
                if x % 2:
                    p.close()
        elif k in ("lock-write", "lock-read"):
            p = lockable[i % 2]
            l = LockedFD(p)
            f = l.open(write=k == "lock-write", stream=bool(x % 2))
            locks.append([l, p])
            if k == "lock-write" and x % 2:
                f.write(b"new content")
        elif k == "lock-missing":
            l = LockedFD(os.path.join(top, "nothing" if i % 2 else "nothing/x"))
            l.open(write=not i % 2 and x % 2, stream=bool(x % 2))
            if x % 3:
                l.rollback()
        elif k == "lock-twice":
            l = LockedFD(lockable[i % 2])
            l.open(write=bool(x % 2))
            try:
                l.open()
            finally:
                if x % 3:
                    l.rollback()
        elif k == "lock-taken":
            p = os.path.join(top, "taken")
            with open(p + ".lock", "w"):
                pass
            try:
                LockedFD(p).open(write=bool(x % 2))
            finally:
                os.remove(p + ".lock")
        elif k == "mem":
            m = MemoryDB()
            m.store(IStream(t, len(c), BytesIO(c)))
            if x % 3 == 0:
                m.stream_copy([sha, b"1" * 20], LooseObjectDB(root))
            else:
                m.stream_copy([sha], pick(x % 2))
        elif k == "update":
            pick(x).update_cache(force=bool(i % 2))
        elif k == "file":
            p = ([os.path.join(root, "pack"), lockable[0], os.path.join(top, "nothing"), blocked] + files)[i % (4 + len(files))]
            if x % 3 == 2:
                fd = os.open(p, os.O_RDONLY)
                try:
                    file_contents_ro(fd, stream=bool(x % 2), allow_mmap=bool(x % 5))
                finally:
                    os.close(fd)
            else:
                file_contents_ro_filepath(p, stream=bool(x % 2), allow_mmap=bool(x % 5))
        elif k == "newdb":
            dbs[x % 3] = [lambda: GitDB(root), lambda: LooseObjectDB(root), lambda: PackedDB(os.path.join(root, "pack"))][x % 3]()
        return []

    def check(what, failed):
        if failed:
            gc.collect()
        links = below(fds(), top)
        loose = [l for l in links if "/pack/pack-" not in l]
        may = len(held) + len(locks)
        require(len(loose) <= may, "after %s: %d files are open while %d streams and locks are held: %s", what, len(loose), may, short([l[len(top):] for l in loose], 600))
        require(len(links) - len(loose) <= nfiles(), "after %s: pack files are open several times: %s", what, short(links, 600))

    for k, i, x, times in case["ops"]:
        ctx.label(k)
        if k == "read":
            if held:
                try:
                    held[i % len(held)][0].read(x if x else -1)
                    if x:
                        state["unread"] = 1
                except Exception:
                    state["failed"] += 1
                check(k, True)
            continue
        if k == "drop":
            if held:
                del held[i % len(held)]
                check(k, False)
            continue
        if k == "lock-end":
            if locks:
                e = locks.pop(i % len(locks))
                if x % 3 == 0:
                    e[0].commit()
                elif x % 3 == 1:
                    e[0].rollback()
                del e
                check(k, False)
            continue
        failed = False
        if times == 0:
            ctx.label("file size limit")
            resource.setrlimit(resource.RLIMIT_FSIZE, ((0, 1, 5, 13, 50, x)[x % 6], fsize[1]))
            times = 1
        elif times > 1 and k not in ("lock-write", "lock-read"):
            resource.setrlimit(resource.RLIMIT_NOFILE, (max(fds()) + 1 + nfiles() + 12, limit[1]))
        else:
            times = 1
        try:
            for n in range(times):
                try:
                    r = once(k, i, x)
                except (Exception, KeyboardInterrupt) as e:
                    if isinstance(e, OSError) and e.errno == 24 or isinstance(e.__cause__, OSError) and e.__cause__.errno == 24:
                        require(False, "%s ran out of descriptors when repeated %d times", k, n)
                    failed = True
                    r = []
                    if n % 8 == 7:
                        gc.collect()
                if times == 1:
                    held += [[s] for s in r]
                    state["unread"] |= bool(r)
                r = None
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, limit)
            resource.setrlimit(resource.RLIMIT_FSIZE, fsize)
        if times > 1:
            ctx.label("repeated")
        if failed:
            state["failed"] += 1
        check("%s x %d" % (k, times), failed)
    ctx.nontrivial(bool(state["failed"] and state["unread"]))
    dbs.clear()
    held.clear()
    locks.clear()
    gc.collect()
    mman.collect()
    after = fds()
    left = {f: after[f] for f in after if before.get(f) != after[f]}
    require(not left and len(after) == len(before), "descriptors stay open: %s", short(left, 600))
    with open("/proc/self/maps") as f:
        left = [l.split(None, 5)[5].strip() for l in f if top + "/" in l]
    require(not left, "files stay mapped: %s", short(left, 600))


def strategy_closed():
    obj = st.tuples(gen.types(), gen.contents(3000, 30)).map(list)
    return st.fixed_dictionaries({"objs": st.lists(obj, min_size=1, max_size=6), "how": st.integers(0, 1023), "v": st.integers(1, 3),
                                  "what": st.sampled_from(["entity", "entity", "pack", "index"]),
                                  "use": st.lists(st.tuples(st.sampled_from(["info", "stream", "part", "verify", "crc", "walk", "iter", "sizes", "miss"]), st.integers(0, 20)).map(list), max_size=5)})


def body_closed(case, ctx):
    """what is closed, and not read from any more, doesn't need its files - even if someone holds on to it"""
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    from gitdb.util import mman
    objs = tree.resolve(case["objs"])
    bp = tree.make_pack(objs, case["how"], case["v"])
    ref.write_pack_files(bp, ctx.dir)
    base = os.path.join(ctx.dir, "pack-" + bp.packsha.hex())
    x = {"entity": PackEntity, "pack": PackFile, "index": PackIndexFile}[case["what"]](base + (".idx" if case["what"] == "index" else ".pack"))
    for k, i in case["use"]:
        sha, t, c = objs[i % len(objs)]
        off = [e.offset for e in bp.ents if e.sha == sha][0]
        ctx.label(k)
        if case["what"] == "entity":
            {"info": lambda: x.info(sha), "stream": lambda: x.stream(sha).read(), "part": lambda: x.stream(sha).read(3), "verify": lambda: x.is_valid_stream(sha),
             "crc": lambda: bp.version == 2 and x.is_valid_stream(sha, True), "walk": lambda: [s.read(5) for s in x.stream_iter()], "iter": lambda: next(x.info_iter()),
             "sizes": lambda: (x.pack().size(), x.index().size()), "miss": lambda: x.index().sha_to_index(b"\1" * 20)}[k]()
        elif case["what"] == "pack":
            {"info": lambda: x.info(off), "stream": lambda: x.stream(off).read(), "part": lambda: x.stream(off).read(3), "verify": lambda: x.checksum(),
             "crc": lambda: x.data() and None, "walk": lambda: [s.read(5) for s in x.stream_iter()], "iter": lambda: next(x.stream_iter()),
             "sizes": lambda: (x.size(), x.version()), "miss": lambda: x.collect_streams(off) and None}[k]()
        else:
            {"info": lambda: x.entry(0), "stream": lambda: x.offset(0), "part": lambda: x.sha(0), "verify": lambda: (x.indexfile_checksum(), x.packfile_checksum()),
             "crc": lambda: x.crc(0), "walk": lambda: list(x.offsets()), "iter": lambda: x.sha_to_index(sha), "sizes": lambda: (x.size(), x.version()),
             "miss": lambda: x.partial_sha_to_index(sha[:3], 6)}[k]()
    x.close()
    mman.collect()
    with open("/proc/self/maps") as f:
        left = [l.split(None, 5)[5].strip() for l in f if ctx.dir + "/" in l]
    require(not left, "files stay mapped after close(): %s", short(left, 600))
    left = below(fds(), ctx.dir)
    require(not left, "files stay open after close(): %s", left)
    ctx.nontrivial(bool(case["use"]))
    del x


def strategy_stream():
    return st.fixed_dictionaries({"c": gen.contents(200000, 30), "t": gen.types(), "l": st.integers(0, 9), "reads": st.lists(st.integers(1, 70000), max_size=4),
                                  "end": st.sampled_from(["close", "close", "drop", "read", "again"]), "git": st.booleans()})


def body_stream(case, ctx):
    """the stream of a loose object which is closed, or dropped, needs no file any more"""
    from gitdb.db import GitDB, LooseObjectDB
    typ, c = ref.TYPES[case["t"]], ref.content(case["c"])
    sha = ref.obj_id(typ, c)
    ref.write_loose(ctx.dir, sha, ref.loose_bytes(typ, c, {"l": case["l"]}))
    db = (GitDB if case["git"] else LooseObjectDB)(ctx.dir)
    o = db.stream(sha)
    pos = 0
    for n in case["reads"]:
        d = o.read(n)
        require(bytes(d) == c[pos:pos + n], "read(%d) at %d", n, pos)
        pos += len(d)
    if case["end"] in ("read", "again"):
        o.read()
    if case["end"] == "again":
        o.stream.seek(0)
        o.read(1)
    if case["end"] == "drop":
        o = None
    else:
        o.stream.close()
        o.stream.close()
    with open("/proc/self/maps") as f:
        left = [l.split(None, 5)[5].strip() for l in f if ctx.dir + "/" in l]
    left += below(fds(), ctx.dir)
    require(not left, "files stay open or mapped: %s", short(left, 600))
    ctx.nontrivial(pos < len(c))
    ctx.label(case["end"])
    del o


def sections():
    return [Section("histories", body, strategy(14, 3000), quick=1600, thorough=40000),
            Section("long", body, strategy(45, 30000), quick=200, thorough=5000),
            Section("closed", body_closed, strategy_closed, quick=1000, thorough=20000),
            Section("stream", body_stream, strategy_stream, quick=1000, thorough=20000)]
