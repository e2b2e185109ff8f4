"""C18 Concurrent processes can store and read the same database."""
import hashlib
import os
import sys
import tempfile
import threading
from io import BytesIO

from hypothesis import strategies as st

from .. import engine, fi, gen, ref, tree
from ..engine import HarnessError, Section, Violation, require, short
from .c01 import Source

RULE = ("a case is the programs of 2-3 processes (storing, copying raw objects, creating packs, querying, enumerating) on one database and an interleaving of their "
        "file-system calls, or those of threads which share a database and an interleaving of their lines; non-trivial = control changed hands while a process was in the middle of storing, or among threads which look up objects in several packs")
ASSUMPTIONS = ["processes do what they do through file-system calls seen by the shim (memory maps of published files aside)", "nobody removes objects meanwhile"]

POOL = [[0, b"first"], [0, b""], [1, b"tree"], [2, ["text", 900, 1]], [3, ["rand", 9000, 2]], [0, ["rep", 300, 3]], [0, ["rand", 70000, 4]]]


def strategy():
    k = st.integers(0, 6)
    op = st.one_of(
        st.tuples(st.just("store"), st.integers(0, 3), st.booleans()).map(list), st.tuples(st.just("store"), k, st.booleans()).map(list),
        st.tuples(st.just("raw"), k, st.booleans()).map(list),
        st.tuples(st.sampled_from(["has", "info", "read", "read", "pieces"]), k, st.booleans()).map(list),
        st.tuples(st.sampled_from(["iter", "size"]), k, st.booleans()).map(list),
        st.tuples(st.just("pack"), st.lists(k, min_size=1, max_size=3, unique=True), st.booleans()).map(list))
    return st.fixed_dictionaries({
        "pre": st.lists(k, max_size=2), "prepack": st.booleans(), "progs": st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=3),
        "git": st.booleans(), "sched": st.lists(st.tuples(st.integers(0, 2), st.integers(1, 9)).map(list), max_size=16)})


def enum(tier, seed):
    """all schedules 'i calls of one, j of the other, the rest of the first, the rest of the other'"""
    kinds = {"same": [["store", 0, False]], "raw": [["raw", 0, False]], "other": [["store", 1, False]],
             "reader": [["read", 0, False], ["iter", 0, True], ["read", 0, True]], "pack": [["pack", [0, 1], False]]}
    pairs = [("same", "same"), ("same", "reader"), ("same", "raw"), ("pack", "reader"), ("raw", "reader")]
    if tier == "thorough":
        pairs = [(a, b) for a in kinds for b in kinds]
    for a, b in pairs:
        for pre in ([], [0]) if tier == "thorough" else ([],):
            for i in range(1, 13):
                for j in range(1, 15):
                    for k in [40] if tier != "thorough" else [1, 2, 4, 40]:
                        yield {"pre": pre, "prepack": False, "progs": [kinds[a], kinds[b]], "git": False, "sched": [[0, i], [1, j], [0, k]]}


def program(d, root, me, ops, git, objs):
    from gitdb.base import IStream, OStream
    from gitdb.db import GitDB, LooseObjectDB
    from gitdb.exc import BadObject
    from gitdb.pack import PackEntity

    def mark(name, n):
        try:
            os.stat(os.path.join(d, "mark-%s-%d" % (name, n)))
        except OSError:
            pass

    def run():
        log = []
        dbs = [None]

        def db(fresh):
            if fresh or dbs[0] is None:
                x = (GitDB if git else LooseObjectDB)(root)
                if dbs[0] is None:
                    dbs[0] = x
                return x
            return dbs[0]

        def attempt(fn, sha):
            try:
                return fn(sha)
            except BadObject:
                return None

        for n, (k, i, fresh) in enumerate(ops):
            if k in ("store", "raw"):
                sha, t, c = objs[i]
                mark("begin", n)
                if k == "store":
                    r = db(fresh).store(IStream(t, len(c), Source(c, [4000] if fresh else [])))
                else:
                    r = db(fresh).store(IStream(t, len(c), BytesIO(ref.loose_bytes(t, c, {"l": 5})), sha))
                mark("stored", n)
                log.append(["stored", r.binsha.hex(), sha.hex()])
            elif k == "pack":
                mark("begin", n)
                PackEntity.create([OStream(objs[x][0], objs[x][1], len(objs[x][2]), BytesIO(objs[x][2])) for x in i], os.path.join(root, "pack"))
                mark("stored", n)
                log.append(["packed", None, None])
            elif k in ("iter", "size"):
                mark("query", n)
                x = db(fresh)
                if k == "size":
                    log.append(["size", x.size(), None])
                else:
                    log.append(["iter", [bytes(s).hex() for s in x.sha_iter()], None])
            else:
                sha, t, c = objs[i]
                mark("query", n)
                x = db(fresh)
                if k == "has":
                    there = x.has_object(sha)
                elif k == "info":
                    r = attempt(x.info, sha)
                    there = r is not None
                    if there and (bytes(r.binsha), r.type, r.size) != (sha, t, len(c)):
                        log.append(["wrong", sha.hex(), "info %r" % (tuple(r),)])
                        continue
                else:
                    r = attempt(x.stream, sha)
                    there = r is not None
                    if there:
                        if k == "pieces":
                            data = b""
                            while True:
                                p = r.read(1000)
                                if not p:
                                    break
                                data += bytes(p)
                        else:
                            data = bytes(r.read())
                        if (r.type, r.size) != (t, len(c)) or data != c:
                            log.append(["wrong", sha.hex(), "%r %d: %d bytes" % (r.type, r.size, len(data))])
                            continue
                log.append(["there" if there else "absent", sha.hex(), fresh])
        return log
    return run


def body(case, ctx):
    from gitdb.db import GitDB, LooseObjectDB
    objs = tree.resolve(POOL)
    content = {s: (t, c) for s, t, c in objs}
    d = os.path.join(ctx.dir, "d")
    root = os.path.join(d, "objects")
    os.makedirs(os.path.join(root, "pack"))
    os.mkdir(os.path.join(d, "tmp"))
    old = tempfile.tempdir
    tempfile.tempdir = os.path.join(d, "tmp")
    ctx.cleanup(lambda: setattr(tempfile, "tempdir", old))
    loose, packed, raw0 = set(), set(), {}
    for n, k in enumerate(case["pre"]):
        s, t, c = objs[k]
        if n == 0 and case["prepack"]:
            ref.write_pack_files(tree.make_pack([objs[k]], 0), os.path.join(root, "pack"))
            packed.add(s)
        else:
            b = ref.loose_bytes(t, c, {"l": 9})
            ref.write_loose(root, s, b)
            raw0["%s/%s" % (s.hex()[:2], s.hex()[2:])] = b
            loose.add(s)
    events = []
    step = [0]
    busy = set()
    good = {}           # path -> (inode, size, mtime) of files which were found complete

    def moment(what):
        """what is under its final name is complete, at every moment"""
        for r, ds, fs in os.walk(root):
            base = os.path.basename(r)
            for f in fs:
                p = os.path.join(r, f)
                if len(base) == 2 and len(f) == 38:
                    s = os.stat(p)
                    key = (s.st_ino, s.st_size, s.st_mtime_ns)
                    if good.get(p) == key:
                        continue
                    with open(p, "rb") as h:
                        b = h.read()
                    try:
                        got = ref.parse_loose(b)
                    except ValueError as e:
                        raise Violation("%s: %s/%s is incomplete: %s" % (what, base, f, e)) from None
                    require(got == content.get(bytes.fromhex(base + f)), "%s: %s/%s holds another object", what, base, f)
                    good[p] = key
                elif f.startswith("pack-") and f.endswith((".pack", ".idx")):
                    with open(p, "rb") as h:
                        b = h.read()
                    require(len(b) > 31 and hashlib.sha1(b[:-20]).digest() == b[-20:], "%s: %s is incomplete", what, f)
                    if f.endswith(".idx"):
                        require(os.path.exists(p[:-3] + "pack"), "%s: %s has no pack", what, f)

    def on_step(i, c):
        step[0] += 1
        if c.kind == "stat" and c.path.startswith("mark-"):
            _, m, n = c.path.split("-")
            events.append((step[0], i, m, int(n)))
            if m == "begin":
                busy.add(i)
            elif m == "stored":
                busy.discard(i)
        elif c.mutating:
            moment("after %r of process %d" % (c, i))
        if busy - {i}:
            ctx.nontrivial()

    progs = [program(d, root, i, p, case["git"], objs) for i, p in enumerate(case["progs"])]
    try:
        results, trace = fi.run_schedule(d, progs, case["sched"], on_step=on_step)
    except fi.Stuck as e:
        raise Violation(str(e)) from None
    when = lambda i, m, n: [e[0] for e in events if e[1:] == (i, m, n)][0]
    stored = []         # (time begun, time done, sha, is loose)
    for i, p in enumerate(case["progs"]):
        r = results[i]
        if "error" in r:
            if "/gitdb/" in r["error"] or r["type"] not in ("OSError", "MemoryError"):
                raise Violation("process %d fails: %s" % (i, r["error"][-700:]))
            raise HarnessError(r["error"])
        for n, (k, x, fresh) in enumerate(p):
            if k in ("store", "raw", "pack"):
                for y in x if k == "pack" else [x]:
                    stored.append((when(i, "begin", n), when(i, "stored", n), objs[y][0], k != "pack"))
    for _, _, s, isloose in stored:
        (loose if isloose else packed).add(s)
    pre = {objs[k][0] for k in case["pre"]}
    pre_loose = pre - ({objs[case["pre"][0]][0]} if case["pre"] and case["prepack"] and objs[case["pre"][0]][0] not in
                       {objs[k][0] for k in case["pre"][1:]} else set())
    seen = {}
    for i, p in enumerate(case["progs"]):
        for n, (what, a, b) in enumerate(results[i]["ok"]):
            ctx.label(what)
            require(what != "wrong", "process %d reads %s: %s", i, a, b)
            if what == "stored":
                require(a == b, "process %d stored %s as %s", i, b, a)
            elif what in ("there", "absent"):
                s = bytes.fromhex(a)
                t = when(i, "query", n)
                may = s in (pre if case["git"] else pre_loose) or any(x[2] == s and (x[3] or case["git"]) for x in stored)
                # packs which appear later are found by a fresh database only
                must = s in (pre if case["git"] else pre_loose) or any(
                    x[2] == s and x[1] < t and (x[3] or (case["git"] and b)) for x in stored)
                if what == "there":
                    require(may, "process %d finds %s, which nobody stored", i, a)
                else:
                    require(not must, "process %d doesn't find %s, which was stored before", i, a)
            elif what == "iter":
                t = when(i, "query", n)
                ids = {bytes.fromhex(x) for x in a}
                require(ids <= loose | packed, "process %d enumerates %s", i, short(sorted(x.hex() for x in ids - loose - packed)))
                must = pre_loose | {x[2] for x in stored if x[1] < t and x[3]}
                require(must <= ids, "process %d doesn't enumerate %s", i, short(sorted(x.hex() for x in must - ids)))
    # the end
    moment("at the end")
    for r, ds, fs in os.walk(d):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), root)
            if f.startswith("pack-"):
                continue
            s = rel.replace("/", "")
            require(len(s) == 40 and bytes.fromhex(s) in loose, "left behind: %s", rel)
    for name, db, have in (("complete", GitDB(root), loose | packed), ("loose", LooseObjectDB(root), loose)):
        require({bytes(x) for x in db.sha_iter()} == have, "%s database at the end: ids", name)
        for s in content:
            if s in have:
                o = db.stream(s)
                require((o.type, o.size, bytes(o.read())) == (content[s][0], len(content[s][1]), content[s][1]), "%s database reads %s wrongly", name, s.hex())
            else:
                require(not db.has_object(s), "%s database has %s", name, s.hex())
    for f, b in raw0.items():
        with open(os.path.join(root, f), "rb") as h:
            require(ref.parse_loose(h.read()) == ref.parse_loose(b), "%s changed", f)


# ---------------------------------------------------------------- threads of one process

class Baton:
    """one thread runs at a time; control changes hands at lines of gitdb's code, as the schedule says"""
    def __init__(self, n, sched):
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.sched = [list(x) for x in sched]
        self.now, self.left, self.steps, self.switches = None, 0, 0, 0
        with self.cond:
            self.advance()

    def advance(self):
        was = self.now
        while self.sched:
            i, n = self.sched.pop(0)
            if i in self.alive and n > 0:
                self.now, self.left = i, n
                break
        else:
            self.now, self.left = (min(self.alive), 1 << 60) if self.alive else (None, 0)
        if was in self.alive and self.now != was:
            self.switches += 1
        self.cond.notify_all()

    def wait(self, i):
        while self.now != i:
            if not self.cond.wait(120):
                raise HarnessError("the baton is stuck")

    def step(self, i):
        with self.cond:
            self.steps += 1
            self.left -= 1
            if self.left < 0:
                self.advance()
                self.wait(i)

    def run(self, i, fn, out):
        mine = os.path.join(engine.REPO, "gitdb") + os.sep

        def local(frame, event, arg):
            if event == "line":
                self.step(i)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(mine) else None
        try:
            with self.cond:
                self.wait(i)
            sys.settrace(trace)
            try:
                out[i] = ("ok", fn())
            finally:
                sys.settrace(None)
        except BaseException as e:
            out[i] = ("error", e)
        with self.cond:
            self.alive.discard(i)
            self.advance()


def go(baton, fns):
    out = [None] * len(fns)
    threads = [threading.Thread(target=baton.run, args=(i, f, out), daemon=True) for i, f in enumerate(fns)]
    for x in threads:
        x.start()
    for x in threads:
        x.join(300)
        if x.is_alive():
            raise HarnessError("a thread does not end")
    for o in out:
        if o[0] == "error":
            raise o[1]


def thread_strategy():
    k = st.integers(0, 6)
    op = st.tuples(st.sampled_from(["store", "store", "store", "raw", "has", "info", "read", "pieces", "iter", "size"]), st.one_of(st.integers(0, 2), k)).map(list)
    return st.fixed_dictionaries({
        "pre": st.lists(k, max_size=2), "progs": st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=3), "db": st.sampled_from(["loose", "loose", "git"]),
        "warm": st.booleans(), "sched": st.lists(st.tuples(st.integers(0, 2), st.integers(1, 60)).map(list), max_size=12)})


def thread_enum(tier, seed):
    progs = {"store": [["store", 0]], "other": [["store", 5]], "raw": [["raw", 0]], "reader": [["has", 0], ["read", 0], ["iter", 0]], "info": [["info", 0], ["pieces", 5]]}
    pairs = [("store", "store"), ("store", "other"), ("raw", "store"), ("store", "reader"), ("info", "reader")]
    if tier == "thorough":
        pairs = [(a, b) for a in progs for b in progs]
    for a, b in pairs:
        for pre in ([], [0, 5]):
            for i in range(1, 80):
                for j in (1000,) if tier == "quick" else (1000, 7, 20, 41):
                    yield {"pre": pre, "progs": [progs[a], progs[b]], "db": "loose" if i % 4 else "git", "warm": False, "sched": [[0, i], [1, j], [0, 1000]]}


def thread_body(case, ctx):
    """threads which share one database of loose objects"""
    from gitdb.base import IStream
    from gitdb.db import GitDB, LooseObjectDB
    from gitdb.exc import BadObject
    objs = tree.resolve(POOL)
    content = {s: (t, c) for s, t, c in objs}
    root = os.path.join(ctx.dir, "objects")
    os.makedirs(os.path.join(root, "pack"))
    have = set()
    for k in case["pre"]:
        s, t, c = objs[k]
        ref.write_loose(root, s, ref.loose_bytes(t, c))
        have.add(s)
    db = (GitDB if case["db"] == "git" else LooseObjectDB)(root)
    if case["db"] == "git":
        db.has_object(b"\1" * 20)       # everything is loaded
    if case["warm"]:
        for s in content:
            db.has_object(s)
    baton = Baton(len(case["progs"]), case["sched"])
    stored = []         # (begun, done, sha)
    log = []

    def program(ops):
        def run():
            for k, i in ops:
                sha, t, c = objs[i]
                t0 = baton.steps
                if k in ("store", "raw"):
                    e = [t0, None, sha]
                    stored.append(e)
                    r = db.store(IStream(t, len(c), BytesIO(c)) if k == "store" else IStream(t, len(c), BytesIO(ref.loose_bytes(t, c, {"l": 5})), sha))
                    require(bytes(r.binsha) == sha, "%s was stored as %s", sha.hex(), bytes(r.binsha).hex())
                    e[1] = baton.steps
                    continue
                try:
                    if k == "has":
                        got = db.has_object(sha)
                    elif k == "info":
                        r = db.info(sha)
                        require((bytes(r.binsha), r.type, r.size) == (sha, t, len(c)), "info of %s", sha.hex())
                        got = True
                    elif k in ("read", "pieces"):
                        r = db.stream(sha)
                        require((r.type, r.size) == (t, len(c)), "stream of %s", sha.hex())
                        data = []
                        while True:
                            p = r.read(1500) if k == "pieces" else r.read()
                            data.append(bytes(p))
                            if not p or k == "read":
                                break
                        require(b"".join(data) == c, "content of %s", sha.hex())
                        got = True
                    elif k == "iter":
                        got = [bytes(x) for x in db.sha_iter()]
                    else:
                        got = db.size()
                except BadObject:
                    got = False
                log.append((k, sha, t0, baton.steps, got))
        return run
    go(baton, [program(p) for p in case["progs"]])
    ctx.nontrivial(baton.switches > 0 and bool(stored))
    ctx.label("%d switches" % min(baton.switches, 5))
    for k, sha, t0, t1, got in log:
        may = have | {x[2] for x in stored if x[0] <= t1}
        must = have | {x[2] for x in stored if x[1] is not None and x[1] <= t0}
        if k == "size":
            require(len(must) <= got <= len(may), "size is %r, with %d to %d objects", got, len(must), len(may))
        elif k == "iter":
            require(len(set(got)) == len(got) and must <= set(got) <= may, "%d ids were enumerated, with %d to %d objects", len(got), len(must), len(may))
        elif got:
            require(sha in may, "a thread finds %s, which nobody stored", sha.hex())
        else:
            require(sha not in must, "a thread doesn't find %s, which was stored before", sha.hex())
    all_ = have | {x[2] for x in stored}
    for d in (db, GitDB(root), LooseObjectDB(root)):
        require(sorted(bytes(x) for x in d.sha_iter()) == sorted(all_), "ids at the end")
        for s in all_:
            o = d.stream(s)
            require((o.type, o.size, bytes(o.read())) == (content[s][0], len(content[s][1]), content[s][1]), "%s is read wrongly at the end", s.hex())
    left = [f for f in os.listdir(root) if os.path.isfile(os.path.join(root, f))]
    require(not left, "left behind: %s", left)


PACKS = [3, 1, 2, 4]        # objects per pack


def packed_strategy():
    k = st.integers(0, 11)
    op = st.tuples(st.sampled_from(["has", "has", "has", "size", "iter", "partial"]), k).map(list)
    return st.fixed_dictionaries({
        "packs": st.integers(1, 4), "warm": st.sampled_from([0, 0, 1, 3, 498, 499, 500]), "on": st.integers(0, 9),
        "progs": st.lists(st.lists(op, min_size=1, max_size=5), min_size=2, max_size=3),
        "sched": st.lists(st.tuples(st.integers(0, 2), st.integers(1, 40)).map(list), max_size=12)})


def packed_enum(tier, seed):
    progs = [["has", 0]], [["has", 11]], [["has", 9], ["has", 1]], [["iter", 0]], [["size", 0]], [["partial", 5]]
    for a in progs[:3]:
        for b in progs:
            for warm in (0, 500) if tier == "quick" else (0, 1, 499, 500):
                for i in range(1, 40, 1 if tier == "thorough" else 2):
                    yield {"packs": 4, "warm": warm, "on": i, "progs": [a, b], "sched": [[0, i], [1, 1000], [0, 1000]]}


def packed_body(case, ctx):
    """threads which look up objects in a database of packs, all of which are loaded"""
    from gitdb.db import PackedDB
    d = os.path.join(ctx.dir, "pack")
    ids = []
    for i, n in enumerate(PACKS[:case["packs"]]):
        bp = ref.build_pack({"objs": [{"t": 2, "c": b"%d of %d" % (k, i)} for k in range(n)], "idx": 1 + i % 2})
        ref.write_pack_files(bp, d)
        ids += [e.sha for e in bp.ents]
    db = PackedDB(d)
    require(db.size() == len(ids), "%d objects of %d", db.size(), len(ids))
    for _ in range(case["warm"]):
        db.has_object(ids[case["on"] % len(ids)])
    sha = lambda k: ids[k] if k < len(ids) else bytes([k]) * 20
    baton = Baton(len(case["progs"]), case["sched"])

    def program(ops):
        def run():
            for op, k in ops:
                if op == "has":
                    require(db.has_object(sha(k)) is (k < len(ids)), "%s of %d packs is %s", sha(k).hex(), case["packs"], "missed" if k < len(ids) else "found")
                elif op == "size":
                    require(db.size() == len(ids), "size is %d instead of %d", db.size(), len(ids))
                elif op == "iter":
                    require(sorted(bytes(x) for x in db.sha_iter()) == sorted(ids), "enumeration differs")
                elif k < len(ids):
                    require(bytes(db.partial_to_complete_sha(sha(k)[:10], 20)) == sha(k), "the beginning of %s isn't resolved", sha(k).hex())
        return run
    go(baton, [program(p) for p in case["progs"]])
    ctx.nontrivial(baton.switches > 0 and case["packs"] > 1)
    ctx.label("packs, %d switches" % min(baton.switches, 5))
    for k in range(12):
        require(db.has_object(sha(k)) is (k < len(ids)), "at the end: %s", sha(k).hex())


def sections():
    return [Section("packs-enumerated", packed_body, enum=packed_enum),
            Section("packs", packed_body, packed_strategy, quick=1500, thorough=40000),
            Section("enumerated", body, enum=enum, quick=1, thorough=1),
            Section("schedules", body, strategy, quick=1500, thorough=60000),
            Section("threads-enumerated", thread_body, enum=thread_enum),
            Section("threads", thread_body, thread_strategy, quick=2500, thorough=60000)]
