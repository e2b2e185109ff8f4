"""Control of the file-system shim (vf/fi.c), which run.py preloads."""
import ctypes
import json
import mmap
import os
import signal
import traceback

from .engine import HarnessError

KINDS = [None, "open", "write", "close", "rename", "link", "unlink", "chmod", "mkdir", "rmdir", "sync", "truncate", "stat", "dir", "symlink", "read", "utime", "mmap", "fstat"]
COUNT, CRASH, CRASH_HALF, FAIL, SHORT, FULL, GATE = range(7)
MUTATING = {"write", "rename", "link", "unlink", "chmod", "mkdir", "rmdir", "sync", "truncate", "symlink", "utime"}


class Entry(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int), ("flags", ctypes.c_int), ("err", ctypes.c_int), ("creat", ctypes.c_int), ("arg", ctypes.c_long), ("path", ctypes.c_char * 232)]

    def get(self):
        return Call(KINDS[self.kind], self.flags, bool(self.creat), self.arg, self.path.decode("utf-8", "replace"))


class Call:
    def __init__(self, kind, flags, creat, arg, path):
        self.kind, self.flags, self.creat, self.arg, self.path = kind, flags, creat, arg, path

    @property
    def mutating(self):
        return self.kind in MUTATING or self.creat

    def __repr__(self):
        return "%s%s(%s)" % (self.kind, "+" if self.creat else "", self.path)


_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("VF_SHIM")
        if not so or so not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("the shim is not loaded")
        _lib = ctypes.CDLL(so)
        _lib.vf_entry.restype = ctypes.POINTER(Entry)
        _lib.vf_ctl_entry.restype = ctypes.POINTER(Entry)
        _lib.vf_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        for n in ("vf_sched_init", "vf_child", "vf_ctl_wait", "vf_ctl_go", "vf_ctl_entry"):
            getattr(_lib, n).argtypes = [ctypes.c_void_p] + {"vf_child": [ctypes.c_int, ctypes.c_char_p], "vf_ctl_wait": [ctypes.c_int, ctypes.c_int],
                                                             "vf_ctl_go": [ctypes.c_int], "vf_ctl_entry": [ctypes.c_int]}.get(n, [])
    return _lib


class Armed:
    """with Armed(dir, mode, k, ...) as a: ...; a.calls, a.reached afterwards"""
    def __init__(self, d, mode=COUNT, k=0, err=0, cut=-1, also=False):
        self.args = (os.fsencode(d), mode, k, err, cut, 0)
        self.also = also        # count maps and fstat
        self.calls, self.reached = [], False

    def __enter__(self):
        lib().vf_also(int(self.also))
        lib().vf_arm(*self.args)
        return self

    def __exit__(self, *exc):
        self.stop()

    def stop(self):
        l = lib()
        l.vf_disarm()
        l.vf_also(0)
        self.reached = bool(l.vf_reached())
        self.calls = [l.vf_entry(i).contents.get() for i in range(l.vf_count())]


def self_test(d):
    """the shim really sees what python does"""
    p = os.path.join(d, "selftest")
    with Armed(d) as a:
        fd = os.open(p, os.O_CREAT | os.O_WRONLY)
        os.write(fd, b"x")
        os.close(fd)
        os.rename(p, p + "2")
        os.path.exists(p)
        os.unlink(p + "2")
        os.mkdir(p)
        os.rmdir(p)
    if [c.kind for c in a.calls] != ["open", "write", "close", "rename", "stat", "unlink", "mkdir", "rmdir"]:
        raise HarnessError("the shim saw %s" % a.calls)


# ---------------------------------------------------------------- several processes

class Stuck(Exception):
    pass


def run_schedule(d, programs, schedule, patience=60, on_step=None):
    """programs: callables returning something JSON-able, each run in its own process; schedule: list of [process, number of calls]; every
    file-system call below d is a step. When the schedule is used up the processes run to their end one after the other.
    -> (results, trace) - results: {"ok": value} or {"error": text}; trace: list of (process, Call)"""
    l = lib()
    size = (l.vf_sched_size() + 4095) // 4096 * 4096
    m = mmap.mmap(-1, size + len(programs) * (1 << 16))
    anchor = ctypes.c_char.from_buffer(m)
    addr = ctypes.addressof(anchor)
    l.vf_sched_init(addr)
    pids = []
    trace = []
    try:
        for i, fn in enumerate(programs):
            pid = os.fork()
            if pid == 0:
                try:
                    l.vf_child(addr, i, os.fsencode(d))
                    try:
                        r = {"ok": fn()}
                    except BaseException as e:
                        r = {"error": "".join(traceback.format_exception(e))[-3000:], "type": type(e).__name__}
                    b = json.dumps(r).encode()
                    o = size + i * (1 << 16)
                    if len(b) > (1 << 16) - 8:
                        b = json.dumps({"error": "result too large"}).encode()
                    m[o:o + 8] = len(b).to_bytes(8, "little")
                    m[o + 8:o + 8 + len(b)] = b
                    l.vf_child_done()
                finally:
                    os._exit(0)
            pids.append(pid)
        state = [None] * len(pids)

        def wait(i):
            state[i] = l.vf_ctl_wait(addr, i, patience)
            if state[i] < 0:
                raise Stuck("process %d makes no progress; steps so far: %s" % (i, trace[-20:]))

        for i in range(len(pids)):
            wait(i)

        def go(i):
            if state[i] != 1:
                return False
            c = l.vf_ctl_entry(addr, i).contents.get()
            trace.append((i, c))
            l.vf_ctl_go(addr, i)
            wait(i)
            if on_step:
                on_step(i, c)
            return True

        for i, n in schedule:
            i %= len(pids)
            for _ in range(n):
                if not go(i):
                    break
        for i in range(len(pids)):
            while go(i):
                pass
        results = []
        for i in range(len(pids)):
            o = size + i * (1 << 16)
            n = int.from_bytes(m[o:o + 8], "little")
            if not n:
                raise HarnessError("process %d left no result" % i)
            results.append(json.loads(bytes(m[o + 8:o + 8 + n])))
        return results, trace
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        for pid in pids:
            os.waitpid(pid, 0)
        del anchor
        try:
            m.close()
        except BufferError:
            pass
