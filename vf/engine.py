"""Runner: sharding, seeding, shrinking, exception classification, work budget, evidence, replay."""
import errno
import gc
import hashlib
import importlib
import json
import mmap
import os
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import types

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
NSHARDS = 8
WORK_BUDGET = 20_000_000


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the machinery or the machine, not with gitdb."""


class WorkExceeded(BaseException):
    """gitdb code did not finish within the work budget."""


class StopRun(KeyboardInterrupt):
    """Another shard has found a violation."""


class TimeUp(KeyboardInterrupt):
    """The section used up its share of the time of a quick run (on a slow machine only)."""


QUICK_SECONDS = 450         # after this the generation of cases ends in the quick tier
QUICK_FACTOR = 3            # applies to the numbers of generated cases of all sections


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(v, n=200):
    s = repr(v)
    return s if len(s) <= n else s[:n // 2] + "...(%d)..." % len(s) + s[-n // 4:]


# ---------------------------------------------------------------- repo import

def import_repo():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import smmap  # noqa
    except ImportError:
        sys.path.append("/opt/venv/lib/python3.12/site-packages")
    try:
        import gitdb
    except Exception as e:
        raise HarnessError("cannot import gitdb: %r" % e)
    if not os.path.abspath(gitdb.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError("gitdb imported from %s" % gitdb.__file__)
    return gitdb


def in_repo(filename):
    return filename.startswith(REPO + os.sep + "gitdb" + os.sep)


# ---------------------------------------------------------------- work budget

class Budget:
    """Counts jumps and function starts inside gitdb code; deterministic."""
    TOOL = 3

    def __init__(self):
        self.left = None
        self.installed = False

    def install(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf")
        mon.register_callback(self.TOOL, mon.events.JUMP, self._ev)
        mon.register_callback(self.TOOL, mon.events.PY_START, self._ev2)
        seen = set()

        def walk(code):
            if code in seen:
                return
            seen.add(code)
            mon.set_local_events(self.TOOL, code, mon.events.JUMP | mon.events.PY_START)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

        def codes_of(obj, depth=0):
            if isinstance(obj, types.FunctionType):
                if in_repo(obj.__code__.co_filename):
                    walk(obj.__code__)
            elif isinstance(obj, (classmethod, staticmethod)):
                codes_of(obj.__func__)
            elif isinstance(obj, property):
                for f in (obj.fget, obj.fset, obj.fdel):
                    if f is not None:
                        codes_of(f)
            elif isinstance(obj, type) and depth < 3:
                for v in list(vars(obj).values()):
                    codes_of(v, depth + 1)
            elif hasattr(obj, "__wrapped__"):
                codes_of(obj.__wrapped__)

        for name, mod in list(sys.modules.items()):
            if (name == "gitdb" or name.startswith("gitdb.")) and mod is not None:
                for v in list(vars(mod).values()):
                    codes_of(v)
        self.installed = True

    def _ev(self, code, off, dest):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = 1000000         # in case this is swallowed, by a destructor for example
                raise WorkExceeded()

    def _ev2(self, code, off):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = 1000000         # in case this is swallowed, by a destructor for example
                raise WorkExceeded()

    def start(self, n):
        self.left = n

    def stop(self):
        used = self.left
        self.left = None
        return used


BUDGET = Budget()


# ---------------------------------------------------------------- case (de)serialisation

def enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"$b": bytes(o).hex()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    return o


def dec(o):
    if isinstance(o, dict):
        if len(o) == 1 and "$b" in o:
            return bytes.fromhex(o["$b"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def dumps(case):
    return json.dumps(enc(case), sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- context given to bodies

class Ctx:
    def __init__(self, run, section):
        self._run = run
        self.section = section
        self.tier = run.tier
        self._dir = None
        self._nontrivial = False
        self._labels = []
        self._cleanup = []

    @property
    def dir(self):
        if self._dir is None:
            self._dir = self._run.new_dir()
        return self._dir

    def label(self, name):
        self._labels.append(name)

    def nontrivial(self, yes=True):
        if yes:
            self._nontrivial = True

    def cleanup(self, fn):
        self._cleanup.append(fn)

    def free_fd0(self):
        """the next file to be opened gets descriptor 0, as in a process whose standard input is closed; -> function to undo that"""
        try:
            saved = os.dup(0)
            os.close(0)
        except OSError:         # a failed case closed it
            fds = [os.open(os.devnull, os.O_RDONLY) for _ in range(2)]
            saved = max(fds)
            os.close(min(fds))

        def restore():
            nonlocal saved
            if saved is not None:
                os.dup2(saved, 0)
                os.close(saved)
                saved = None
        self.cleanup(restore)
        self.label("descriptor 0")
        return restore

    def close(self):
        for fn in reversed(self._cleanup):
            try:
                fn()
            except Exception:
                pass
        self._cleanup = []
        if self._dir is not None:
            d, self._dir = self._dir, None
            collect_maps()
            shutil.rmtree(d, ignore_errors=True)


def collect_maps():
    """drop cached memory maps of files that are gone (smmap keeps them otherwise)"""
    gc.collect(0)
    try:
        from gitdb.util import mman
        mman.collect()
    except Exception:
        pass


class Section:
    """name; strategy: callable returning a Hypothesis strategy, or enum: callable(tier, seed) -> iterable;
    body(case, ctx); quick/thorough: number of generated cases over all shards."""

    def __init__(self, name, body, strategy=None, enum=None, quick=400, thorough=8000, budget=WORK_BUDGET, shards=None):
        self.name, self.body, self.strategy, self.enum = name, body, strategy, enum
        self.quick, self.thorough, self.budget, self.shards = quick, thorough, budget, shards


# ---------------------------------------------------------------- one shard

class Run:
    def __init__(self, check, tier, seed, shard, nshards, scratch, shared, scale):
        self.check, self.tier, self.seed, self.shard, self.nshards = check, tier, seed, shard, nshards
        self.scratch = scratch
        self.shared = shared
        self.scale = scale * (QUICK_FACTOR if tier == "quick" else 1)
        self.deadline = None
        self.counter = 0
        self.evals = 0
        self.labels = {}
        self.sections = {}
        self.hashes = set()
        self.samples = {}
        self.failure = None         # (section, case, message)
        self.harness_error = None

    def new_dir(self):
        self.counter += 1
        d = os.path.join(self.scratch, "s%d-%d-%d" % (self.shard, os.getpid(), self.counter))
        os.mkdir(d)
        return d

    def note_current(self, section, js):
        if self.shared is not None:
            self.shared.put(self.shard, section, js)

    def execute(self, section, case, count=True):
        """run one case; raises Violation or HarnessError"""
        js = dumps(case)
        self.note_current(section.name, js)
        ctx = Ctx(self, section)
        try:
            try:
                if section.budget:
                    BUDGET.start(section.budget)
                section.body(case, ctx)
            finally:
                BUDGET.stop()
        except (Violation, HarnessError, StopRun):
            raise
        except WorkExceeded:
            raise Violation("did not finish within the work budget of %d steps of gitdb code" % section.budget) from None
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            raise classify(e) from None
        finally:
            BUDGET.stop()
            ctx.close()
        if count:
            self.evals += 1
            self.sections.setdefault(section.name, [0, 0])[0] += 1
            for l in set(ctx._labels):
                self.labels[l] = self.labels.get(l, 0) + 1
            if ctx._nontrivial:
                h = hashlib.blake2b((section.name + js).encode(), digest_size=8).digest()
                if h not in self.hashes:
                    self.hashes.add(h)
                    self.sections[section.name][1] += 1
                    sl = self.samples.setdefault(section.name, [])
                    if len(sl) < 2:
                        sl.append(js if len(js) < 600 else js[:600] + "...")

    # -- sections
    def run_section(self, section):
        n = section.quick if self.tier == "quick" else section.thorough
        n = max(1, int(n * self.scale))
        nsh = min(self.nshards, section.shards or self.nshards)
        if self.shard >= nsh:
            return
        share = n // nsh + (1 if self.shard < n % nsh else 0)
        if section.enum is not None:
            self.run_enum(section, nsh)
        elif share > 0:
            self.run_hyp(section, share)

    def run_enum(self, section, nsh):
        for i, case in enumerate(section.enum(self.tier, self.seed)):
            if i % nsh != self.shard:
                continue
            if self.shared is not None and self.shared.stopped():
                raise StopRun()
            try:
                self.execute(section, case)
            except Violation as v:
                self.failure = (section.name, case, str(v))
                return

    def run_hyp(self, section, share):
        import hypothesis
        from hypothesis import given, settings, Phase, HealthCheck
        import hypothesis.internal.conjecture.engine as hce
        hce.MAX_SHRINKING_SECONDS = 40 if self.tier == "quick" else 200
        key = "%s/%s/%d/%d/%s" % (self.check, section.name, self.shard, self.nshards, self.seed)
        hseed = int.from_bytes(hashlib.blake2b(key.encode(), digest_size=8).digest(), "big")
        state = {"last": None, "first": None}

        def test(case):
            if self.harness_error is not None:
                raise StopRun()
            if state["last"] is None and self.shared is not None and self.shared.stopped():
                raise StopRun()
            if state["last"] is None and self.deadline is not None and time.time() > self.deadline:
                raise TimeUp()
            try:
                self.execute(section, case, count=state["last"] is None)
            except Violation as v:
                state["last"] = (section.name, case, str(v))
                if state["first"] is None:
                    state["first"] = state["last"]
                raise
            except HarnessError as e:
                self.harness_error = format_error(e)
                raise StopRun()
            except StopRun:
                raise
            except BaseException as e:
                if type(e).__module__.startswith("hypothesis"):
                    raise
                self.harness_error = format_error(e)
                raise StopRun()

        test.__name__ = "test_" + section.name.replace("-", "_")
        fn = given(case=section.strategy())(test)
        fn = hypothesis.seed(hseed)(fn)
        fn = settings(max_examples=share, database=None, deadline=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), print_blob=False)(fn)
        devnull = open(os.devnull, "w")
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = devnull
        try:
            fn()
        except StopRun:
            if state["last"] is None and self.harness_error is None:
                raise
        except TimeUp:
            self.labels["%s: ended early, time was up" % section.name] = 1
        except Violation:
            pass
        except Exception as e:
            if state["last"] is None:
                self.harness_error = format_error(e)
        finally:
            sys.stdout, sys.stderr = old
            devnull.close()
        if self.harness_error is None and state["last"] is not None:
            self.failure = state["last"]

    def result(self):
        return {"evals": self.evals, "labels": self.labels, "sections": self.sections,
                "hashes": [h.hex() for h in self.hashes], "samples": self.samples,
                "failure": None if self.failure is None else
                [self.failure[0], enc(self.failure[1]), self.failure[2]],
                "harness_error": self.harness_error}


def format_error(e):
    try:
        return "".join(traceback.format_exception(e))
    except Exception:       # it looks at the attributes of objects, to suggest names
        return "%s: %s\n%s" % (type(e).__name__, str(e), "".join(traceback.format_tb(e.__traceback__)))


def classify(e):
    frames = traceback.extract_tb(e.__traceback__)
    where = [f for f in frames if in_repo(f.filename)]
    if isinstance(e, OSError) and e.errno == errno.ENOMEM:
        return HarnessError(format_error(e))        # the machine's limits
    if where:
        f = where[-1]
        return Violation("unexpected %s: %s (gitdb/%s, in %s)" % (
            type(e).__name__, str(e)[:300], os.path.relpath(f.filename, os.path.join(REPO, "gitdb")), f.name))
    if isinstance(e, (OSError, MemoryError, ImportError, NameError, SyntaxError)) and not isinstance(e, UnboundLocalError):
        return HarnessError(format_error(e))
    last = frames[-1] if frames else None
    return Violation("unusable result: %s: %s (%s:%s)" % (
        type(e).__name__, str(e)[:300], os.path.basename(last.filename) if last else "?", last.lineno if last else "?"))


# ---------------------------------------------------------------- shared memory between shards

class Shared:
    SLOT = 1 << 20

    def __init__(self, n):
        self.m = mmap.mmap(-1, 64 + n * self.SLOT)

    def stop(self):
        self.m[0] = 1

    def stopped(self):
        return self.m[0] == 1

    def put(self, shard, section, js):
        b = (section + "\0" + js).encode()
        o = 64 + shard * self.SLOT
        if len(b) > self.SLOT - 8:
            b = b""
        self.m[o:o + 8 + len(b)] = struct.pack("<Q", len(b)) + b

    def get(self, shard):
        o = 64 + shard * self.SLOT
        n, = struct.unpack("<Q", self.m[o:o + 8])
        if not n:
            return None
        s, _, js = self.m[o + 8:o + 8 + n].decode().partition("\0")
        return s, js


def scratch_base():
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            v = os.statvfs(base)
            if base == "/dev/shm" and v.f_bavail * v.f_frsize < 4 << 30:
                continue
            return tempfile.mkdtemp(prefix="vf-", dir=base)
        except OSError:
            continue
    raise HarnessError("no scratch directory")


def temp_elsewhere(scratch):
    """a directory for temporary files which is on another file system than the scratch directory, where there is one"""
    for base in (tempfile.gettempdir(), "/var/tmp", "/dev/shm"):
        try:
            if os.stat(base).st_dev != os.stat(scratch).st_dev:
                return tempfile.mkdtemp(prefix="vf-", dir=base)
        except OSError:
            continue
    d = os.path.join(scratch, "tmp")
    os.mkdir(d)
    return d


def load_check(cid):
    return importlib.import_module("vf.checks.%s" % cid.lower())


def parse_args(argv):
    opts = {"tier": os.environ.get("VERIF_TIER") or "quick", "replay": None, "shards": NSHARDS, "scale": 1.0, "only": None}
    cid = None
    it = iter(argv)
    for a in it:
        if a.startswith("--"):
            opts[a[2:]] = next(it)
        else:
            cid = a
    opts["shards"] = int(opts["shards"])
    opts["scale"] = float(opts["scale"])
    return cid, opts


def regress_cases(cid):
    d = os.path.join(ROOT, "regress", cid)
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".json"):
                with open(os.path.join(d, fn)) as f:
                    j = json.load(f)
                yield fn, j["section"], dec(j["case"])


def main(argv):
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors="backslashreplace")
    try:
        return main_(argv)
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2


def main_(argv):
    cid, opts = parse_args(argv)
    tier = opts["tier"]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import_repo()
    mod = load_check(cid)
    BUDGET.install()
    sections = mod.sections()
    if opts["only"]:
        sections = [s for s in sections if s.name in opts["only"].split(",")]
    byname = {s.name: s for s in mod.sections()}
    scratch = scratch_base()
    os.environ["HOME"] = scratch
    os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
    os.environ["GIT_CONFIG_GLOBAL"] = os.devnull
    tempfile.tempdir = temp = temp_elsewhere(scratch)
    t0 = time.time()
    try:
        if opts["replay"]:
            return replay(cid, byname, opts["replay"], tier, seed, scratch)
        return run_all(cid, mod, sections, byname, tier, seed, scratch, opts, t0)
    finally:
        shutil.rmtree(temp, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(cid, byname, path, tier, seed, scratch):
    with open(path) as f:
        j = json.load(f)
    run = Run(cid, tier, seed, 0, 1, scratch, None, 1.0)
    try:
        run.execute(byname[j["section"]], dec(j["case"]))
    except Violation as v:
        print("replayed: %s" % v)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    print("replay passes")
    return 0


def shard_main(cid, sections, byname, tier, seed, shard, nshards, scratch, shared, scale, outpath):
    run = Run(cid, tier, seed, shard, nshards, scratch, shared, scale)
    try:
        for i, (fn, sec, case) in enumerate(regress_cases(cid)):
            if i % nshards != shard or sec not in byname:
                continue
            try:
                run.execute(byname[sec], case)
            except Violation as v:
                run.failure = (sec, case, "regression %s: %s" % (fn, v))
                break
        if run.failure is None:
            t0 = time.time()
            for i, s in enumerate(sections):
                if tier == "quick":
                    run.deadline = t0 + QUICK_SECONDS * (i + 1) / len(sections)
                run.run_section(s)
                if run.failure or run.harness_error:
                    break
    except StopRun:
        pass
    except Exception as e:
        run.harness_error = format_error(e)
    if run.failure:
        shared.stop()
    with open(outpath, "w") as f:
        json.dump(run.result(), f)


def run_all(cid, mod, sections, byname, tier, seed, scratch, opts, t0):
    nshards = opts["shards"]
    shared = Shared(nshards)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(nshards):
        outpath = os.path.join(scratch, "result-%d" % i)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                shard_main(cid, sections, byname, tier, seed, i, nshards, scratch, shared, opts["scale"], outpath)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        pids[pid] = i
    deadline = t0 + (840 if tier == "quick" else 24 * 3600)
    status = {}
    while len(status) < nshards:
        for pid in list(pids):
            if pids[pid] in status:
                continue
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status[pids[pid]] = st
                killgroup(pid)
        if time.time() > deadline:
            for pid in pids:
                killgroup(pid)
            print("ERROR: time ran out (inconclusive); current cases: %s" % [
                short(shared.get(i), 300) for i in range(nshards) if i not in status])
            return 2
        time.sleep(0.02)
    results, errors, failures = [], [], []
    for i in range(nshards):
        st = status[i]
        path = os.path.join(scratch, "result-%d" % i)
        if os.WIFSIGNALED(st) or not os.path.exists(path):
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            cur = shared.get(i)
            if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL) and cur:
                failures.append((cur[0], json.loads(cur[1]), "the process was ended by signal %d" % sig))
            else:
                errors.append("shard %d ended with status %d; current case %s" % (i, st, short(cur, 500)))
            continue
        with open(path) as f:
            r = json.load(f)
        results.append(r)
        if r["harness_error"]:
            errors.append(r["harness_error"])
        if r["failure"]:
            failures.append(tuple(r["failure"]))
    known = known_findings(cid)
    rc = 0
    nviol = 0
    if failures:
        outdir = os.path.join(ROOT, "out")
        try:
            os.makedirs(outdir, exist_ok=True)
        except OSError:
            outdir = tempfile.mkdtemp(prefix="vf-out-", dir="/tmp")
        best = {}
        for sec, case, msg in failures:
            js = json.dumps(case, sort_keys=True)
            if sec not in best or len(js) < len(best[sec][0]):
                best[sec] = (js, case, msg)
        for sec, (js, case, msg) in sorted(best.items()):
            h = hashlib.sha1((sec + js).encode()).hexdigest()[:10]
            p = os.path.join(outdir, "%s-%s-%s.json" % (cid, sec, h))
            with open(p, "w") as f:
                json.dump({"property": cid, "section": sec, "case": case, "message": msg}, f, indent=1)
            print("%s/%s: %s" % (cid, sec, msg))
            print("case: %s" % (js if len(js) < 3000 else js[:3000] + "..."))
            print("VIOLATION property=%s replay=%s" % (cid, p))
            nviol += 1
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("ERROR: %s" % e)
        rc = 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (cid, k))
    write_evidence(cid, mod, sections, tier, seed, results, time.time() - t0, nviol)
    return rc


def killgroup(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def known_findings(cid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.startswith("finding: property=%s " % cid):
                    out.append(l.split(" ", 2)[2].strip())
    return out


def write_evidence(cid, mod, sections, tier, seed, results, wall, nviol):
    labels, secs, samples, hashes = {}, {}, [], set()
    evals = 0
    for r in results:
        evals += r["evals"]
        hashes.update(r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["sections"].items():
            s = secs.setdefault(k, [0, 0])
            s[0] += v[0]
            s[1] += v[1]
    per = {}
    for r in results:
        for k, v in r["samples"].items():
            per.setdefault(k, []).extend(v)
    for k in sorted(per):
        for js in per[k][:2]:
            samples.append({"section": k, "case": js})
    ev = {"property": cid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": mod.RULE,
                       "samples": samples,
                       "sections": {k: {"evaluations": v[0], "distinct_nontrivial": v[1]} for k, v in sorted(secs.items())},
                       "labels": dict(sorted(labels.items()))},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % cid)
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (cid, tier, seed, evals, len(hashes), wall))
    for k, v in sorted(secs.items()):
        print("  %-24s %6d cases %6d non-trivial" % (k, v[0], v[1]))
