"""C13 A locked file is exclusive and replaced atomically."""
import errno
import gc
import os
import shutil
import stat
import subprocess
import sys
import time

from hypothesis import strategies as st

from .. import fi, gen, ref
from ..engine import HarnessError, Section, Violation, require, short

RULE = ("a case is a history of opening, writing, reading, committing, rolling back and dropping over several holders of two files; or one locked operation run once per "
        "file-system call it makes, stopped before it or with the call failing; or the programs of 2-3 processes and an interleaving of their file-system calls. "
        "non-trivial = an attempt met a held lock / any fault was injected / control changed hands while a process was inside the lock")
ASSUMPTIONS = ["processes use the lock only through LockedFD", "a crash stops the process", "removing the lock file doesn't fail"]


# ---------------------------------------------------------------- histories

def history_strategy():
    h, f = st.integers(0, 3), st.sampled_from([0, 0, 0, 1, 2])
    data = st.one_of(st.binary(max_size=6), st.tuples(st.sampled_from(["text", "rand"]), st.integers(0, 70000), st.integers(0, 9)).map(list))
    op = st.one_of(
        st.tuples(st.just("open"), h, f, st.booleans(), st.booleans()).map(list),
        st.tuples(st.just("open"), h, f, st.booleans(), st.booleans()).map(list),
        st.tuples(st.just("write"), h, data).map(list), st.tuples(st.just("write"), h, data).map(list),
        st.tuples(st.just("read"), h, st.integers(0, 9)).map(list),
        st.tuples(st.sampled_from(["commit", "rollback", "drop", "commit"]), h).map(list),
        st.tuples(st.just("twice"), h, st.booleans()).map(list),
        st.tuples(st.just("unopened"), st.booleans()).map(list),
        st.tuples(st.just("foreign"), f, st.integers(0, 5), st.integers(0, 4)).map(list),
        st.tuples(st.sampled_from(["foreign", "free", "free"]), f).map(list),
        st.tuples(st.just("baddir"), st.booleans(), st.booleans()).map(list))
    return st.fixed_dictionaries({"files": st.lists(st.one_of(st.none(), st.binary(max_size=8)), min_size=3, max_size=3), "ops": gen.histories(op, 2, 25), "fd0": st.sampled_from([False, False, False, True])})


def drop(p):
    if os.path.isdir(p) and not os.path.islink(p):
        os.rmdir(p)
    else:
        os.remove(p)


def history_body(case, ctx):
    from gitdb.util import LockedFD
    paths = [os.path.join(ctx.dir, n) for n in ("a", "b.lock", "c d")]
    content = list(case["files"])
    for p, c in zip(paths, content):
        if c is not None:
            with open(p, "wb") as f:
                f.write(c)
    if case.get("fd0"):
        ctx.free_fd0()
    lock = [None] * 3           # None, holder number, "foreign"
    H = [None] * 4              # [LockedFD, file, state, write, stream-or-fd, is_stream, buffer, read position]

    foreign = [None] * 3        # what such a lock looks like

    def look(p):
        s = os.lstat(p)
        if stat.S_ISDIR(s.st_mode):
            return os.listdir(p)
        if stat.S_ISLNK(s.st_mode):
            return os.readlink(p)
        with open(p, "rb") as f:
            return f.read(), s.st_mode, s.st_ino, s.st_mtime_ns

    def state(what):
        for i, p in enumerate(paths):
            if content[i] is None:
                require(not os.path.exists(p), "%s: %s was created", what, p[-3:])
            else:
                require(os.path.exists(p), "%s: %s is gone", what, p[-3:])
                with open(p, "rb") as f:
                    d = f.read()
                require(d == content[i], "%s: %s holds %s instead of %s", what, p[-3:], short(d), short(content[i]))
            require(os.path.lexists(p + ".lock") is (lock[i] is not None), "%s: lock of %s is %s", what, p[-3:], "free" if lock[i] is not None else "held by nobody")
            if lock[i] == "foreign":
                require(look(p + ".lock") == foreign[i], "%s: the lock file of another program was changed", what)
        extra = set(os.listdir(ctx.dir)) - {os.path.basename(p) for p in paths} - {os.path.basename(p) + ".lock" for p in paths}
        require(not extra, "%s: files %s", what, extra)

    def fails(what, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return
        require(False, "%s doesn't fail", what)

    def release(h, commit):
        x = H[h]
        if x[2] != "open":
            return
        x[2] = "ended"
        lock[x[1]] = None
        if commit and x[3]:
            content[x[1]] = x[6]

    def do(op):
        k = op[0]
        ctx.label(k)
        if k == "open":
            _, h, f, write, stream = op
            if H[h] is not None:
                if H[h][2] == "open":
                    return
                H[h] = None         # dropping an ended holder must not disturb others
                state("dropping an ended holder")
            l = LockedFD(paths[f])
            if lock[f] is not None:
                ctx.nontrivial()
                fails("opening a locked file", OSError, l.open, write=write, stream=stream)
                state("failed attempt")
                H[h] = [l, f, "failed", write, None, False, b"", 0]
            elif not write and content[f] is None:
                fails("opening a missing file for reading", OSError, l.open, write=False, stream=stream)
                H[h] = [l, f, "failed", write, None, False, b"", 0]
            else:
                s = l.open(write=write, stream=stream) if h % 2 or write or stream else l.open()
                if stream:
                    require(isinstance(s.fileno(), int) and s.tell() == 0, "stream of a locked file at %r", s.tell())
                else:
                    require(isinstance(s, int), "descriptor is %r", s)
                H[h] = [l, f, "open", write, s, stream, b"", 0]
                lock[f] = h
        elif k == "write":
            x = H[op[1]]
            if x is None or x[2] != "open" or not x[3]:
                return
            d = ref.content(op[2])
            try:
                x[4].write(d) if x[5] else os.write(x[4], d)
            except OSError as e:
                require(False, "can't write to the file opened for writing: %s", e)
            x[6] += d
            if x[5]:
                require(x[4].tell() == len(x[6]), "tell is %r after %d bytes", x[4].tell(), len(x[6]))
        elif k == "read":
            x = H[op[1]]
            if x is None or x[2] != "open" or x[3]:
                return
            c, n = content[x[1]], op[2]
            if x[5]:
                d = x[4].read(n) if n else x[4].read()
                want = c[x[7]:x[7] + n] if n else c[x[7]:]
            else:
                n += 1
                d, want = os.read(x[4], n), c[x[7]:x[7] + n]
            require(d == want, "read %s instead of %s from a locked file", short(d), short(want))
            x[7] += len(want)
            if x[5]:
                require(x[4].tell() == x[7], "tell is %r after %d bytes", x[4].tell(), x[7])
        elif k in ("commit", "rollback"):
            x = H[op[1]]
            if x is None:
                return
            if x[2] == "failed":
                # nothing was obtained: must neither change nor release anything
                try:
                    getattr(x[0], k)()
                except Exception:
                    pass
                state("%s after a failed attempt" % k)
                return
            getattr(x[0], k)()
            release(op[1], k == "commit")
        elif k == "drop":
            if H[op[1]] is not None:
                release(op[1], False)
                H[op[1]] = None
        elif k == "twice":
            x = H[op[1]]
            if x is not None:
                fails("opening twice", Exception, x[0].open, write=op[2])
        elif k == "unopened":
            l = LockedFD(paths[0])
            fails("ending before opening", Exception, l.commit if op[1] else l.rollback)
            del l
        elif k == "foreign":
            if lock[op[1]] is None:
                p = paths[op[1]] + ".lock"
                kind, age = op[2:] if len(op) > 2 else (0, 0)
                if kind == 4:
                    os.mkdir(p)
                elif kind == 5:
                    os.symlink("nowhere", p)
                else:
                    with open(p, "wb") as f:
                        f.write([b"foreign", b"", b"%d\n" % (1 << 22), b"%d\n" % os.getpid()][kind])
                if age:         # however long it may have been there
                    t = [0, 0, time.time() - 90000, time.time() + 90000, time.time() - 3 * 365 * 86400][age]
                    os.utime(p, (t, t), follow_symlinks=False)
                foreign[op[1]] = look(p)
                lock[op[1]] = "foreign"
        elif k == "free":
            if lock[op[1]] == "foreign":
                drop(paths[op[1]] + ".lock")
                lock[op[1]] = None
        else:
            l = LockedFD(os.path.join(ctx.dir, "nothing", "x"))
            fails("opening below a missing directory", OSError, l.open, write=op[1], stream=op[2])
            del l

    for op in case["ops"]:
        do(op)
        gc.collect(0)
        state(op[0])
    for h in range(4):
        if H[h] is not None:
            release(h, False)
            H[h] = None
            gc.collect(0)
            state("drop")
    for i in range(3):
        if lock[i] == "foreign":
            drop(paths[i] + ".lock")
        l = LockedFD(paths[i])
        l.open(write=True)
        l.rollback()
        require(not os.path.exists(paths[i] + ".lock"), "the lock is not free at the end")


# ---------------------------------------------------------------- faults

def fault_strategy():
    data = st.one_of(st.binary(max_size=6), st.tuples(st.sampled_from(["text", "rand"]), st.integers(0, 9000), st.integers(0, 9)).map(list))
    return st.fixed_dictionaries({"old": st.one_of(st.none(), data), "pieces": st.lists(data, max_size=3), "write": st.booleans(), "stream": st.booleans(),
                                  "end": st.sampled_from(["commit", "commit", "rollback", "drop"]), "again": st.booleans()})


ERRNOS = {"open": [errno.EMFILE, errno.EACCES], "write": [errno.ENOSPC, errno.EIO], "close": [errno.EIO], "rename": [errno.EIO, errno.EACCES], "link": [errno.EPERM],
          "chmod": [errno.EPERM, errno.EIO], "stat": [errno.EACCES], "sync": [errno.EIO], "truncate": [errno.EIO], "read": [errno.EIO]}


def fault_body(case, ctx):
    from gitdb.util import LockedFD
    old = None if case["old"] is None else ref.content(case["old"])
    new = [ref.content(p) for p in case["pieces"]]
    full = b"".join(new)
    counter = [0]
    hook = sys.unraisablehook
    sys.unraisablehook = lambda u: None         # destructors complain
    ctx.cleanup(lambda: setattr(sys, "unraisablehook", hook))

    def variant(what, mode=fi.COUNT, k=0, err=0, cut=-1, failing=None):
        counter[0] += 1
        d = os.path.join(ctx.dir, "v%d" % counter[0])
        os.mkdir(d)
        p = os.path.join(d, "f")
        if old is not None:
            with open(p, "wb") as f:
                f.write(old)
        crash = mode in (fi.CRASH, fi.CRASH_HALF)
        written, exc = b"", None
        ended = False
        with fi.Armed(d, mode, k, err, cut) as a:
            try:
                l = LockedFD(p)
                try:
                    s = l.open(write=case["write"], stream=case["stream"])
                    if case["write"]:
                        for c in new:
                            if case["stream"]:
                                s.write(c)
                            else:
                                v = c
                                while v:
                                    v = v[os.write(s, v):]
                            written += c
                    elif case["stream"]:
                        s.read(100)
                    if case["end"] != "drop":
                        ended = True
                        getattr(l, case["end"])()
                        if case["again"]:
                            l.commit()
                            l.rollback()
                finally:
                    s = None
                    l = None        # after a crash this has no effect on the files any more
                    gc.collect(0)
            except OSError as e:
                exc = str(e)[:80]
            except Exception as e:
                require(crash, "%s: %s: %s", what, type(e).__name__, e)
        if os.path.exists(p):
            with open(p, "rb") as f:
                c = f.read()
        else:
            c = None
        success = exc is None and not crash
        if success and case["write"] and case["end"] == "commit":
            require(c == full, "%s: committed, but the file holds %s instead of %s", what, short(c), short(full))
        elif success or not case["write"] or case["end"] != "commit" or not ended:
            require(c == old, "%s: the file holds %s instead of %s", what, short(c), short(old))
        else:
            require(c == old or c == full, "%s: the file holds %s, neither the old %s nor the new %s", what, short(c), short(old), short(full))
        if not crash:
            require(os.listdir(d) == (["f"] if c is not None else []), "%s (%s): left behind: %s", what, exc, os.listdir(d))
            left = [x for x in os.listdir("/proc/self/fd") if link(x).startswith(d)]
            require(not left, "%s: left open", what)
            l = LockedFD(p)
            l.open(write=True)
            l.commit()
            require(os.listdir(d) == ["f"], "%s: the next holder can't commit", what)
        shutil.rmtree(d)
        return a.calls, exc

    calls, exc = variant("undisturbed")
    require((exc is not None) is (old is None and not case["write"]), "opening fails with %r", exc)
    ctx.nontrivial()
    for k, c in enumerate(calls):
        at = "at call %d %r of %d" % (k, c, len(calls))
        variant("crash " + at, fi.CRASH, k)
        ctx.label("crash")
        if c.kind == "write" and c.arg > 1:
            variant("crash half way " + at, fi.CRASH_HALF, k)
            variant("short write " + at, fi.SHORT, k)
        for err in ERRNOS.get(c.kind, []):
            variant("%s %s" % (errno.errorcode[err], at), fi.FAIL, k, err)
            ctx.label("fail " + c.kind)
        if c.creat or c.kind == "write":
            variant("device full " + at, fi.FULL, k)


def link(f):
    try:
        return os.readlink("/proc/self/fd/" + f)
    except OSError:
        return ""


# ---------------------------------------------------------------- several processes

def program(d, me, rounds):
    """rounds: list of [write, end, stream]; content: one line per commit"""
    from gitdb.util import LockedFD
    p = os.path.join(d, "f")

    def mark(name, n):
        try:
            os.stat(os.path.join(d, "mark-%s-%d" % (name, n)))
        except OSError:
            pass

    def run():
        log = []
        for n, (write, end, stream) in enumerate(rounds):
            mark("try", n)
            l = LockedFD(p)
            try:
                s = l.open(write=write, stream=stream)
            except OSError:
                mark("failed", n)
                log.append(["failed", None, None])
                continue
            mark("in", n)
            if write:
                with open(p, "rb") as f:
                    c = f.read()
                # in two pieces
                line = b"%d.%d\n" % (me, n)
                for x in (c + line[:2], line[2:]):
                    s.write(x) if stream else os.write(s, x)
            else:
                c = s.read() if stream else os.read(s, 9999)
            mark("out", n)
            if end == "drop":
                s = l = None
            else:
                s = None
                getattr(l, end)()
                l = None
            mark("end", n)
            log.append([end if write else "read", c.decode(), None])
        return log
    return run


def schedule_strategy():
    rnd = st.tuples(st.sampled_from([True, True, False]), st.sampled_from(["commit", "commit", "rollback", "drop"]), st.booleans()).map(list)
    return st.fixed_dictionaries({"progs": st.lists(st.lists(rnd, min_size=1, max_size=3), min_size=2, max_size=3),
                                  "sched": st.lists(st.tuples(st.integers(0, 2), st.integers(1, 9)).map(list), max_size=16)})


def schedule_enum(tier, seed):
    """all schedules 'i calls of one, j of the other, k of the first, then to the end'"""
    kinds = [[True, "commit", False], [False, "commit", False], [True, "rollback", True], [True, "drop", False]]
    step = 1 if tier == "thorough" else 2
    for a in kinds:
        for b in kinds:
            if tier != "thorough" and a is not kinds[0] and b is not kinds[0]:
                continue
            for i in range(0, 13):
                for j in range(1, 15, 1 if b is kinds[0] else step):
                    for k in [40] if tier != "thorough" else [1, 2, 3, 5, 40]:
                        yield {"progs": [[a], [b, [True, "commit", True]]], "sched": [[0, i], [1, j], [0, k]]}


def schedule_body(case, ctx):
    d = os.path.join(ctx.dir, "d")
    os.mkdir(d)
    with open(os.path.join(d, "f"), "wb") as f:
        f.write(b"start\n")
    allowed = {b"start\n"}
    seen = [b"start\n"]
    pending = {}
    inside = {}         # process -> content when it entered
    events = []         # (process, mark, round)

    def content():
        try:
            with open(os.path.join(d, "f"), "rb") as f:
                return f.read()
        except OSError:
            return None

    step = [0]

    def on_step(i, c):
        step[0] += 1
        now = content()
        require(now is not None, "the file is gone after %r of process %d", c, i)
        if now != seen[-1]:
            # the content is the one before plus the whole line of a process which is committing
            w = [q for q in pending if now == seen[-1] + pending[q]]
            require(w, "after %r of process %d the file holds %s, before it was %s, committing: %s", c, i, short(now), short(seen[-1]), pending)
            require(w[0] == i, "process %d changed the file in the name of another", i)
            del pending[w[0]]
            seen.append(now)
            for q in inside:
                require(q == i, "the file changed while process %d held it", q)
        # the marks: a step has been *made* when on_step is called
        if c.kind == "stat" and c.path.startswith("mark-"):
            _, m, n = c.path.split("-")
            events.append((step[0], i, m, int(n)))
            if m == "in":
                require(not inside, "processes %s and %d hold the lock at once", list(inside), i)
                inside[i] = now
                ctx.label("entered")
            elif m == "out":
                require(inside.pop(i, None) is not None, "process %d left without having entered", i)
                write, end, _ = case["progs"][i][int(n)]
                if write and end == "commit":
                    pending[i] = b"%d.%d\n" % (i, int(n))
            elif m == "end":
                require(i not in pending, "process %d has committed, but the file is unchanged", i)
        elif inside and i not in inside:
            ctx.nontrivial()

    progs = [program(d, i, r) for i, r in enumerate(case["progs"])]
    try:
        results, trace = fi.run_schedule(d, progs, case["sched"], on_step=on_step)
    except fi.Stuck as e:
        raise Violation(str(e)) from None
    commits = 0
    for i, r in enumerate(results):
        if "error" in r:
            if "gitdb" in r["error"] or "AssertionError" in r["error"]:
                raise Violation("process %d: %s" % (i, r["error"][-600:]))
            raise HarnessError(r["error"])
        for n, (what, c, _) in enumerate(r["ok"]):
            if what == "failed":
                # only if somebody else may have held it
                t0 = [e[0] for e in events if e[1:] == (i, "try", n)][0]
                t1 = [e[0] for e in events if e[1:] == (i, "failed", n)][0]
                ok = False
                for q, log in enumerate(r2["ok"] for r2 in results):
                    if q == i:
                        continue
                    for m in range(len(log)):
                        s0 = [e[0] for e in events if e[1:] == (q, "try", m)][0]
                        s1 = [e[0] for e in events if e[1:] in ((q, "end", m), (q, "failed", m))][0]
                        ok = ok or (s0 < t1 and t0 < s1)
                require(ok, "process %d failed to get the lock while nobody else was near it", i)
                ctx.label("refused")
            else:
                require(c.encode() in seen, "process %d read %s inside the lock", i, short(c))
                commits += what == "commit"
    require(content() == seen[-1] and len(seen) == commits + 1, "%d commits, but the content changed %d times", commits, len(seen) - 1)
    require(os.listdir(d) == ["f"], "left behind: %s", os.listdir(d))


# ---------------------------------------------------------------- programs which end while they hold a lock

ENDING = """
import gc, os, sys
from gitdb.util import LockedFD
where, write, stream, wrote, how, path = %r
def take():
    l = LockedFD(path)
    s = l.open(write=write, stream=stream)
    if write and wrote:
        s.write(b"other") if stream else os.write(s, b"other")
    return l, s
class Box: pass
def main():
    l, s = take()
    if where == "local": keep = l, s
    elif where == "global": globals()["keep"] = l
    elif where == "with stream": globals()["keep"] = [s, l]
    elif where == "class": Box.keep = l
    elif where == "cycle":
        b = Box(); b.b, b.l, b.s = b, l, s
        if how != "exit": gc.disable()
    elif where == "global cycle":
        b = Box(); b.b, b.l = b, l
        globals()["keep"] = b
    if not os.path.exists(path + ".lock"): print("no lock")
    if how == "exit": sys.exit(3)
    if how == "raise": raise KeyError("uncaught")
main()
"""


def ending_enum(tier, seed):
    for where in ("local", "global", "with stream", "class", "cycle", "global cycle"):
        for how in ("return", "exit", "raise"):
            for write, stream in ((True, False), (True, True), (False, False), (False, True)):
                if tier == "thorough" or (write and not stream) or (how == "return" and where in ("local", "global")):
                    yield {"where": where, "how": how, "write": write, "stream": stream, "wrote": tier != "thorough" or where != "class", "old": tier != "quick" or where != "class"}


def ending_body(case, ctx):
    p = os.path.join(ctx.dir, "f")
    old = b"old content"
    if case["old"] or not case["write"]:
        with open(p, "wb") as f:
            f.write(old)
    else:
        old = None
    code = ENDING % ((case["where"], case["write"], case["stream"], case["wrote"], case["how"], p),)
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, cwd=ctx.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    ctx.label(case["how"])
    ctx.nontrivial()
    err = r.stderr.decode("utf8", "replace")
    want = {"return": 0, "exit": 3, "raise": 1}[case["how"]]
    require(r.returncode == want and not r.stdout and (case["how"] != "raise" or "uncaught" in err), "the program ends with %d, %s: %s", r.returncode, r.stdout, err[-400:])
    require(os.listdir(ctx.dir) == (["f"] if old is not None else []), "after the program ended there are %s", os.listdir(ctx.dir))
    if old is not None:
        with open(p, "rb") as f:
            c = f.read()
        require(c == old, "after the program ended the file holds %s", short(c))


def sections():
    return [Section("histories", history_body, history_strategy, quick=4000, thorough=100000),
            Section("faults", fault_body, fault_strategy, quick=600, thorough=20000),
            Section("endings", ending_body, enum=ending_enum, quick=1, thorough=1),
            Section("enumerated", schedule_body, enum=schedule_enum, quick=1, thorough=1),
            Section("schedules", schedule_body, schedule_strategy, quick=1200, thorough=60000)]
