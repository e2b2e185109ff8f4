"""C02 Storing is all-or-nothing under errors and crashes."""
import errno
import gc
import hashlib
import os
import shutil
import tempfile
import time
from io import BytesIO

from hypothesis import strategies as st

from .. import fi, gen, ref, tree
from ..engine import Section, Violation, require, short
from .c01 import Source
from .c17 import Failing, below, fds

RULE = ("a case is an operation (storing an object into a loose or complete database, raw copy, copying from a memory database, creating a pack) on a database with some "
        "content; it is run once per file-system call made (stopped before it, half way through a write, the call failing, writing short, the device full from there on) "
        "and once per read of the source (failing, ending early); labels count these runs; all cases are non-trivial")
ASSUMPTIONS = ["a crash stops the process; what the kernel was told before survives", "one call fails per run (or all which need space, from some call on)", "the database object has answered a query before (its lazy initialisation isn't part of storing)"]

ERRNOS = {"open": [errno.EMFILE, errno.EACCES], "write": [errno.ENOSPC, errno.EIO, errno.EINTR], "close": [errno.EIO], "rename": [errno.EIO, errno.EACCES],
          "link": [errno.EPERM], "unlink": [errno.EACCES], "chmod": [errno.EPERM, errno.EIO], "mkdir": [errno.ENOSPC, errno.EACCES], "stat": [errno.EACCES],
          "sync": [errno.EIO], "truncate": [errno.EIO], "dir": [errno.EACCES], "symlink": [errno.EPERM], "read": [errno.EIO], "utime": [errno.EPERM], "rmdir": [errno.EACCES]}


class Stop(Exception):
    pass


def strategy(maxn):
    def s():
        obj = st.tuples(gen.types(), gen.contents(maxn, 30)).map(list)
        pieces = st.one_of(st.just([]), st.lists(st.sampled_from([1, 7, 100, 511, 4096]), min_size=1, max_size=3))
        return st.fixed_dictionaries({
            "k": st.sampled_from(["store", "store", "store", "raw", "copy", "pack", "pack"]), "objs": st.lists(obj, min_size=1, max_size=4), "pieces": pieces,
            "pre": st.lists(obj, max_size=2), "prepack": st.booleans(), "there": st.sampled_from(["no", "no", "no", "dir", "yes"]), "git": st.booleans(),
            "seen": st.booleans(), "iter": st.booleans(), "level": st.integers(0, 9), "z": gen.zdescs(), "elsewhere": st.sampled_from([0, 0, 1])})
    return s


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


class Op:
    """the operation of a case, to be run in any number of directories"""
    def __init__(self, case, ctx):
        self.case, self.ctx, self.n = case, ctx, 0
        self.objs = tree.resolve(case["objs"])
        if case["k"] in ("store", "raw"):
            self.objs = self.objs[:1]
        pre = [o for o in tree.resolve(case["pre"]) if o not in self.objs]
        self.pre = {s: (t, c) for s, t, c in pre}
        self.new = {s: (t, c) for s, t, c in self.objs}
        self.files, self.again = {}, set()
        for n, (s, t, c) in enumerate(pre):
            if case["prepack"] and n == 0:
                bp = tree.make_pack([pre[0]], 0)
                for ext, data in ((".pack", bp.pack), (".idx", bp.idx)):
                    self.files["objects/pack/pack-%s%s" % (bp.packsha.hex(), ext)] = data
            else:
                self.files["objects/%s/%s" % (s.hex()[:2], s.hex()[2:])] = ref.loose_bytes(t, c, {"l": 6})
        self.dirs = ["objects/pack", "tmp"]
        s, t, c = self.objs[0]
        if case["there"] == "yes":
            self.files["objects/%s/%s" % (s.hex()[:2], s.hex()[2:])] = ref.loose_bytes(t, c, {"l": 9})
            self.pre[s] = (t, c)
            self.again = {"objects/%s/%s" % (s.hex()[:2], s.hex()[2:])}
        elif case["there"] == "dir":
            self.dirs.append("objects/" + s.hex()[:2])

    def setup(self):
        self.n += 1
        d = os.path.join(self.ctx.dir, "v%d" % self.n)
        for x in self.dirs:
            os.makedirs(os.path.join(d, x))
        for f, data in self.files.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(data)
        if not self.case.get("elsewhere"):
            tempfile.tempdir = os.path.join(d, "tmp")
        return d

    def database(self, d):
        from gitdb.db import GitDB, LooseObjectDB
        root = os.path.join(d, "objects")
        db = (GitDB if self.case["git"] else LooseObjectDB)(root)
        db.has_object(bytes(20))
        if self.case["seen"]:
            for s in list(self.new) + list(self.pre):
                db.has_object(s)
        return db

    def source(self, data, fail, n):
        """fail: None or [object number, read number, exception or "eof"]"""
        whole = self.case["k"] == "pack"        # a stream of a database hands out all that is asked for
        if fail is None or fail[0] != n:
            return Source(data, not whole and self.case["pieces"] and [max(p, len(data) // 8) for p in self.case["pieces"]])
        if fail[2] == "eof":
            return Source(data[:len(data) * fail[1] // 4], [])
        return Failing(data, [] if whole else [max(1, len(data) // 3)], fail[1], fail[2])

    def run(self, d, db, fail=None, again=False):
        """again: use the input stream of the last run, rewound"""
        from gitdb.base import IStream, OStream
        from gitdb.db import MemoryDB
        from gitdb.pack import PackEntity
        k = self.case["k"]
        if k == "store":
            s, t, c = self.objs[0]
            if again:
                i = self.istream
                i.stream = self.source(c, fail, 0)
            else:
                i = self.istream = IStream(t, len(c), self.source(c, fail, 0))
            r = db.store(i)
            return r.binsha == s
        if k == "raw":
            s, t, c = self.objs[0]
            raw = ref.loose_bytes(t, c, self.case["z"])
            r = db.store(IStream(t, len(c), self.source(raw, fail, 0), s))
            return r.binsha == s
        if k == "copy":
            m = MemoryDB()
            for s, t, c in self.objs:
                m.store(IStream(t, len(c), BytesIO(c)))
            m.stream_copy([s for s, t, c in self.objs], db)
            return True

        def items():
            for n, (s, t, c) in enumerate(self.objs):
                yield OStream(s, t, len(c), self.source(c, fail, n))
            if fail is not None and fail[0] == len(self.objs):
                raise fail[2]
        it = items() if self.case["iter"] else list(items()) if fail is None or fail[0] < len(self.objs) else items()
        e = PackEntity.create(it, os.path.join(d, "objects", "pack"), None if self.case["level"] % 2 else len(self.objs), self.case["level"])
        return e is not None

    # -- judging
    def readers(self, d, dbs, present, what):
        """every database sees exactly what is there"""
        for name, db in dbs:
            for s, (t, c) in list(self.pre.items()) + list(self.new.items()):
                if name == "loose" and s not in present["loose"]:
                    continue
                if s in present["all"]:
                    require(db.has_object(s), "%s: %s database misses %s", what, name, s.hex())
                    o = db.stream(s)
                    require((o.type, o.size) == (t, len(c)) and bytes(o.read()) == c, "%s: %s database reads %s wrongly", what, name, s.hex())
                else:
                    require(not db.has_object(s), "%s: %s database reports %s", what, name, s.hex())

    def judge(self, d, what, crash, raised, tolerate_temp, db):
        """-> set of new objects which are there"""
        from gitdb.db import GitDB, LooseObjectDB
        now = snapshot(d)
        for f, data in self.files.items():
            if f in self.again and f in now:
                continue        # may be replaced by the same object (judged below)
            require(now.get(f) == data, "%s: %s, which was there before, is changed or gone", what, f)
        loose, packed, extra, packs = set(), set(), [], {}
        for f, data in now.items():
            parts = f.split("/")
            if parts[0] == "objects" and len(parts) == 3 and len(parts[1]) == 2 and len(parts[2]) == 38:
                s = bytes.fromhex(parts[1] + parts[2])
                want = self.pre.get(s) or self.new.get(s)
                require(want is not None, "%s: %s was created", what, f)
                try:
                    got = ref.parse_loose(data)
                except ValueError as e:
                    raise Violation("%s: %s is incomplete: %s" % (what, f, e))
                require(got == want, "%s: %s holds another object", what, f)
                loose.add(s)
            elif f.startswith("objects/pack/pack-") and f.endswith((".pack", ".idx")):
                b, ext = f.rsplit(".", 1)
                packs.setdefault(b, {})[ext] = data
            elif f not in self.files:
                extra.append(f)
        for b, p in packs.items():
            if b + ".pack" in self.files:
                packed.update(s for s in self.pre if s not in loose)
                continue
            if "pack" in p:
                data = p["pack"]
                require(len(data) > 31 and hashlib.sha1(data[:-20]).digest() == data[-20:] and b.endswith(data[-20:].hex()), "%s: %s.pack is incomplete", what, b)
            require("pack" in p, "%s: %s.idx has no pack", what, b)
            if "idx" in p:
                data = p["idx"]
                require(hashlib.sha1(data[:-20]).digest() == data[-20:] and data[-40:-20] == p["pack"][-20:], "%s: %s.idx is incomplete", what, b)
                packed.update(self.new)
            else:
                require(crash, "%s: %s.pack is left without its index", what, b)
        require(crash or tolerate_temp or not extra, "%s: left behind: %s", what, extra)
        root = os.path.join(d, "objects")
        present = {"loose": loose, "all": loose | packed}
        dbs = [("fresh", GitDB(root)), ("loose", LooseObjectDB(root))]
        if not crash and self.case["k"] != "pack":
            dbs.append(("open", db))
            if not self.case["git"]:
                dbs[-1] = ("loose", db)
        self.readers(d, dbs, present, what)
        ids = {bytes(x) for x in dbs[0][1].sha_iter()}
        require(ids == present["all"], "%s: sha_iter: %s", what, short([x.hex() for x in ids ^ present["all"]]))
        if not crash:
            left = below(fds(), d)
            held = [x for x in left if "/pack/pack-" not in x]
            if held:
                gc.collect()
                held = [x for x in below(fds(), d) if "/pack/pack-" not in x]
            require(not held, "%s: left open: %s", what, held)
        return present["all"] & set(self.new)

    def variant(self, what, mode=fi.COUNT, k=0, err=0, cut=-1, fail=None, tolerate_temp=False):
        """one run; -> calls made"""
        from gitdb.exc import ODBError  # noqa
        crash = mode in (fi.CRASH, fi.CRASH_HALF)
        d = self.setup()
        db = self.database(d)
        exc = None
        with fi.Armed(d, mode, k, err, cut) as a:
            try:
                ok = self.run(d, db, fail)
            except (Exception, KeyboardInterrupt) as e:
                ok, exc = None, type(e).__name__ + ": " + str(e)[:200]
            except BaseException as e:          # the work budget
                if not crash:
                    raise
                ok, exc = None, repr(e)
        what = "%s, %s" % (self.case["k"], what)
        if crash:
            db = None
        got = self.judge(d, what + (" (raised %s)" % exc if exc else ""), crash, exc is not None, tolerate_temp and exc is not None, db)
        if not crash and exc is None:
            require(ok, "%s: reported as success with another id", what)
            require(got == set(self.new), "%s: reported as success, but %s is not there", what, short([s.hex() for s in set(self.new) - got]))
        if mode != fi.COUNT or fail is not None:
            # once more, undisturbed
            if db is None:
                db = self.database(d)
            before = set(snapshot(d))
            same = not crash and exc is not None and k % 2 == 0
            try:
                self.run(d, db, again=same)
            except Exception as e:
                raise Violation("%s: fails when repeated: %s: %s" % (what, type(e).__name__, e)) from None
            got = self.judge(d, what + ", repeated", crash, False, tolerate_temp, db)
            require(got == set(self.new), "%s: not there after it was repeated", what)
            if crash:
                more = [f for f in set(snapshot(d)) - before if "/pack-" not in f and len(f.split("/")[-1]) != 38]
                require(not more, "%s: repeating it left behind %s", what, more)
        shutil.rmtree(d, ignore_errors=True)
        return a, exc


def body(case, ctx):
    op = Op(case, ctx)
    sleep, tmp = time.sleep, tempfile.tempdir
    ctx.cleanup(lambda: setattr(time, "sleep", sleep))
    ctx.cleanup(lambda: setattr(tempfile, "tempdir", tmp))
    if not getattr(body, "tested", False):
        fi.self_test(ctx.dir)
        body.tested = True
    time.sleep = lambda s: None
    a, exc = op.variant("undisturbed")
    require(exc is None, "%s fails without any fault: %s", case["k"], exc)
    calls = a.calls
    ctx.nontrivial()
    ks = list(range(len(calls)))
    if len(ks) > 60:
        ks = sorted(set(ks[:25] + ks[-25:] + ks[::len(ks) // 10]))
    for k in ks:
        c = calls[k]
        at = "at call %d %r of %d" % (k, c, len(calls))
        if c.mutating or c.kind == "close":
            op.variant("crash " + at, fi.CRASH, k)
            ctx.label("crash")
        if c.kind == "write":
            for cut in (-1, max(0, c.arg - 1)):
                if c.arg > 1:
                    op.variant("crash half way " + at, fi.CRASH_HALF, k, 0, cut)
                    op.variant("short write " + at, fi.SHORT, k, 0, cut)
                    ctx.label("half")
        for err in ERRNOS[c.kind]:
            op.variant("%s %s" % (errno.errorcode[err], at), fi.FAIL, k, err, tolerate_temp=c.kind == "unlink")
            ctx.label("fail " + c.kind)
        if c.kind in ("write", "mkdir") or c.creat:
            op.variant("device full " + at, fi.FULL, k)
            ctx.label("full")
    if case["k"] != "copy":
        for n in range(len(op.objs) + (case["k"] == "pack")):
            for r in range(4):
                for x in (OSError(errno.EIO, "source"), Stop(), KeyboardInterrupt(), "eof"):
                    if n == len(op.objs) and (x == "eof" or r):
                        continue
                    if x == "eof" and (case["k"] == "raw" or len(op.objs[n][2]) < 1):
                        continue        # a raw copy can't know its length
                    _, exc = op.variant("read %d of source %d: %r" % (r, n, x), fail=[n, r, x])
                    if x == "eof":
                        require(exc is not None, "%s: a source which ends early was accepted", case["k"])
                    ctx.label("source")


def sections():
    return [Section("faults", body, strategy(600), quick=240, thorough=10000, budget=200_000_000),
            Section("larger", body, strategy(200000), quick=32, thorough=1500, budget=400_000_000)]
