"""C12 After a cache update a long-lived database shows what is on disk."""
import os

from hypothesis import strategies as st

from .. import gen, ref, tree
from ..engine import HarnessError, Section, require, short

RULE = ("a case is a history of external changes (pack files and indices appearing and disappearing one by one, loose objects stored and pruned, alternates "
        "rewritten), alternates and pack directories disappearing and coming back, with the directory's modification time advancing or not, of queries and of cache updates; non-trivial = an update was obliged to show "
        "a change made since the previous one, to a database which had answered queries before")
ASSUMPTIONS = ["modification times never go backwards", "files of the same name have the same content", "alternates have no cycles"]

NPACK = 4           # packs of the main directory
NALT = 3            # other object directories, each with one pack


def strategy(maxops):
    def s():
        obj = st.tuples(gen.types(), gen.contents(200, 20)).map(list)
        some = st.lists(st.integers(0, 40), min_size=1, max_size=5)
        pk = st.tuples(some, st.integers(0, 1023), st.integers(1, 3)).map(list)
        adv = st.sampled_from([0, 1, 1, 1, 1000])
        d, o, p, a = st.integers(0, 4), st.integers(0, 40), st.integers(0, NPACK + NALT - 1), st.integers(0, 7)
        op = st.one_of(
            st.tuples(st.just("pack"), p, st.sampled_from(["both", "both", "both", "swapped", "pack", "idx", "nopack", "noidx", "none", "none"]), adv).map(list),
            st.tuples(st.just("pack"), p, st.sampled_from(["both", "none"]), adv).map(list),
            st.tuples(st.just("repack"), st.sampled_from([0, 0, 0, 0, 1, 2, 3]), st.integers(0, 15), st.integers(0, 15), adv).map(list),
            st.tuples(st.just("loose"), o, st.integers(0, NALT), st.sampled_from(["raw", "store", "own", "git"])).map(list),
            st.tuples(st.just("prune"), o, st.integers(0, NALT)).map(list),
            st.tuples(st.just("alts"), st.sampled_from(["write", "write", "remove"]), a).map(list),
            st.tuples(st.just("q"), d, o, st.integers(0, 3)).map(list),
            st.tuples(st.just("all"), d).map(list),
            st.tuples(st.just("update"), d, st.booleans()).map(list),
            st.tuples(st.just("update"), d, st.booleans()).map(list),
            st.tuples(st.just("update"), st.sampled_from([0, 0, 1]), st.booleans()).map(list),
            st.tuples(st.just("away"), st.sampled_from([1, 2, 3, 1, 0]), st.booleans()).map(list))
        return st.fixed_dictionaries({"objs": st.lists(obj, min_size=1, max_size=8), "packs": st.lists(pk, min_size=NPACK + NALT, max_size=NPACK + NALT),
                                      "lazy": st.booleans(), "packdir": st.sampled_from([True, True, False]), "infodir": st.booleans(),
                                      "name": st.integers(0, len(tree.ROOTNAMES) - 1), "ops": gen.histories(op, 2, maxops)})
    return s


class World:
    """what is on disk, and its logical time"""
    def __init__(self, case, ctx):
        self.objs = tree.resolve(case["objs"])
        self.content = {s: (t, c) for s, t, c in self.objs}
        top = os.path.join(ctx.dir, tree.ROOTNAMES[case["name"]])
        self.roots = [os.path.join(top, n) for n in ("main", "alt", "alt1", "al")]
        self.have_packdir = [case["packdir"], True, True, True]
        for i, r in enumerate(self.roots):
            os.makedirs(r)
            if self.have_packdir[i]:
                os.mkdir(os.path.join(r, "pack"))
            if case["infodir"] or i:
                os.mkdir(os.path.join(r, "info"))
        self.packs = []
        for ids, how, v in case["packs"]:
            pick = []
            for k in ids:
                o = self.objs[k % len(self.objs)]
                if o not in pick:
                    pick.append(o)
            self.packs.append(tree.make_pack(pick, how, v))
        for i in range(NPACK):      # equal packs would be one file
            for j in range(i):
                if self.packs[i] and self.packs[j] and self.packs[i].packsha == self.packs[j].packsha:
                    self.packs[i] = None
        self.state = [set() for _ in self.packs]        # of "pack", "idx"
        self.loose = [set() for _ in self.roots]
        self.alts = None                                # list of roots' numbers or None: no file
        self.altfile = os.path.join(self.roots[0], "info", "alternates")
        self.now = 1_600_000_000 * 10**9
        self.version = [0] * 4
        self.away = [set() for _ in self.roots]         # of "root", "pack": directories which can't be found meanwhile
        self.mtime = [0] * 4
        for i in range(4):
            self.touch(i, 1)

    def touch(self, i, adv):
        if self.have_packdir[i]:
            self.now += adv * 10**6
            if adv:
                self.mtime[i] = self.now
            os.utime(os.path.join(self.roots[i], "pack"), ns=(self.mtime[i], self.mtime[i]))

    def dir_of(self, p):
        return 0 if p < NPACK else p - NPACK + 1

    def set_pack(self, p, want, adv):
        bp = self.packs[p]
        if bp is None or self.away[self.dir_of(p)]:
            return False
        i = self.dir_of(p)
        d = os.path.join(self.roots[i], "pack")
        steps = {"both": ["+pack", "+idx"], "swapped": ["+idx", "+pack"], "pack": ["+pack"], "idx": ["+idx"], "nopack": ["-pack"], "noidx": ["-idx"],
                 "none": ["-idx", "-pack"]}[want]
        done = False
        for s in steps:
            kind = s[1:]
            path = os.path.join(d, "pack-%s.%s" % (bp.packsha.hex(), kind))
            if s[0] == "+" and kind not in self.state[p]:
                if not self.have_packdir[i]:
                    os.mkdir(d)
                    self.have_packdir[i] = True
                    adv = adv or 1
                with open(path + ".tmp", "wb") as f:
                    f.write(getattr(bp, kind))
                os.rename(path + ".tmp", path)
                self.state[p].add(kind)
                done = True
            elif s[0] == "-" and kind in self.state[p]:
                os.remove(path)
                self.state[p].discard(kind)
                done = True
        if done:
            self.version[i] += 1
            self.touch(i, adv)
        return done

    def set_alts(self, alts):
        self.alts = alts
        if alts is None:
            if os.path.exists(self.altfile):
                os.remove(self.altfile)
            return
        os.makedirs(os.path.dirname(self.altfile), exist_ok=True)
        with open(self.altfile, "w", encoding="utf-8", errors="surrogateescape") as f:
            for a in alts:
                f.write(self.roots[a] + "\n")

    def move(self, i, root):
        """a whole alternate or a pack directory disappears (not mounted ...), or comes back"""
        path, kind = (self.roots[i], "root") if root and i else (os.path.join(self.roots[i], "pack"), "pack")
        if kind in self.away[i]:
            os.rename(path + ".away", path)
            self.away[i].discard(kind)
        elif not self.away[i] and (kind == "root" or self.have_packdir[i]):
            os.rename(path, path + ".away")
            self.away[i].add(kind)
        else:
            return False
        return True

    def usable(self, i):
        if self.away[i]:
            return []
        return [self.packs[p] for p in range(len(self.packs)) if self.dir_of(p) == i and self.state[p] == {"pack", "idx"}]

    def known(self, scope):
        """scope: list of ("loose"|"packs", directory number)"""
        s = set()
        n = 0
        for kind, i in scope:
            if kind == "loose":
                if "root" not in self.away[i]:
                    s |= self.loose[i]
                    n += len(self.loose[i])
            else:
                for bp in self.usable(i):
                    s |= set(bp.objs)
                    n += len(bp.objs)
        return s, n


class Long:
    """a long-lived database and what it may have seen"""
    def __init__(self, name, db, world, main, alts):
        self.name, self.db, self.w = name, db, world
        self.main, self.with_alts = main, alts          # main: kinds of parts of the main directory
        self.seen = {i: [world.version[i], world.mtime[i]] for i in range(4)}
        self.alts = list(world.alts or [])
        self.maybe = set()                              # alternates which may have been found by a query
        self.loaded = False
        self.queried = False
        self.vague = False                              # directories disappeared: a forced update is needed

    def scope(self):
        s = [(k, 0) for k in self.main]
        if self.with_alts:
            for a in self.w.alts or []:
                s += [("loose", a), ("packs", a)]
        return s

    def touched(self):
        """a query: whatever hasn't been loaded is loaded now"""
        self.queried = True
        if not self.loaded:
            for i in range(4):
                self.seen[i][1] = max(self.seen[i][1], self.w.mtime[i])
            self.maybe |= set(self.w.alts or [])

    def load(self):
        self.db.has_object(b"\x77" * 20)
        list(self.db.sha_iter())
        self.loaded = True
        self.seen = {i: [self.w.version[i], self.w.mtime[i]] for i in range(4)}
        self.queried = True

    def update(self, force):
        """-> (must show the truth, must not say that nothing changed)"""
        w = self.w
        dirs = [0] if "packs" in self.main else []
        if self.with_alts:
            dirs += w.alts or []
        oblige, changed = True, False
        for i in dirs:
            ver, mt = self.seen[i]
            fresh = force or w.mtime[i] > mt
            if i and i not in self.alts and i not in self.maybe:        # a new alternate
                fresh = True
                changed = changed or self.loaded
            elif ver != w.version[i]:
                if w.mtime[i] > mt:
                    changed = True
                else:
                    oblige = oblige and force
            if fresh:
                self.seen[i] = [w.version[i], w.mtime[i]]
        if self.with_alts and set(self.alts) != set(w.alts or []):
            changed = True
        if any(w.away):
            changed = False
        if oblige and (force or not self.vague):
            self.loaded = True
        self.alts = list(w.alts or [])
        self.maybe = set()
        if self.vague:
            changed, oblige = False, force
        if force:
            self.vague = False
        return oblige and not ("packs" == self.name and w.away[0]), changed


def body(case, ctx):
    from gitdb.base import IStream
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    from gitdb.exc import BadObject
    from io import BytesIO
    w = World(case, ctx)
    absent = [s[:19] + bytes([s[19] ^ 1]) for s in w.content][:3] + [bytes(20)]

    def make(name):
        if name == "git":
            return GitDB(w.roots[0])
        if name == "packs":
            return PackedDB(os.path.join(w.roots[0], "pack"))
        if name == "loose":
            return LooseObjectDB(w.roots[0])
        return ReferenceDB(w.altfile)
    parts = {"git": (["loose", "packs"], True), "packs": (["packs"], False), "loose": (["loose"], False), "alternates": ([], True)}
    longs = [Long(n, make(n), w, *parts[n]) for n in ("git", "packs", "loose", "alternates") if n != "packs" or case["packdir"]]
    if not case["lazy"]:
        for l in longs:
            l.load()

    def check(db, known, count, what):
        for sha, (t, c) in w.content.items():
            if sha in known:
                require(db.has_object(sha) is True and sha in db, "%s: %s is missing", what, sha.hex())
                i = db.info(sha)
                require((i.type, i.size) == (t, len(c)), "%s: info of %s", what, sha.hex())
                s = db.stream(sha)
                require((s.type, s.size, bytes(s.read())) == (t, len(c), c), "%s: stream of %s", what, sha.hex())
            else:
                gone(db, sha, what)
        for sha in absent:
            if sha not in w.content:
                gone(db, sha, what)
        ids = [bytes(s) for s in db.sha_iter()]
        require(set(ids) == known and len(ids) == count, "%s: ids are %s instead of %s", what, short(sorted(s.hex() for s in ids), 300),
                short(sorted(s.hex() for s in known), 300))
        require(db.size() == count, "%s: size is %r, not %d", what, db.size(), count)
        if hasattr(db, "partial_to_complete_sha_hex"):
            for sha in w.content:
                try:
                    got = bytes(db.partial_to_complete_sha_hex(sha.hex()))
                except BadObject:
                    got = None
                require(got == (sha if sha in known else None), "%s: abbreviation of %s gives %r", what, sha.hex(), got)

    def gone(db, sha, what):
        require(db.has_object(sha) is False and sha not in db, "%s: the absent %s is present", what, sha.hex())
        for fn in (db.info, db.stream):
            try:
                fn(sha)
            except BadObject:
                pass
            else:
                require(False, "%s: the absent %s is answered", what, sha.hex())

    def fresh_check(l):
        known, count = w.known(l.scope())
        check(make(l.name), known, count, "new " + l.name)
        return known, count

    shas = [o[0] for o in w.objs]
    removed = set()             # objects of packs removed at any time: lookups before the next update may go there
    changed_since = False
    for op in case["ops"]:
        k = op[0]
        if k == "pack":
            before = w.usable(w.dir_of(op[1]))
            if w.set_pack(op[1], op[2], op[3]):
                changed_since = True
                ctx.label("pack " + op[2])
                for bp in before:
                    if bp not in w.usable(w.dir_of(op[1])):
                        removed |= set(bp.objs)
        elif k == "repack":         # several at once: some packs come, others go, as many as there were or not
            ps = [p for p in range(len(w.packs)) if w.dir_of(p) == op[1]]
            before = w.usable(op[1])
            for n, p in enumerate(ps):
                have = w.state[p] == {"pack", "idx"}
                if have and op[2] >> n & 1:
                    changed_since |= w.set_pack(p, "none", op[4])
                elif not have and op[3] >> n & 1:
                    changed_since |= w.set_pack(p, "both", op[4])
            for bp in before:
                if bp not in w.usable(op[1]):
                    removed |= set(bp.objs)
            ctx.label("repack")
        elif k == "loose":
            sha, t, c = w.objs[op[1] % len(w.objs)]
            root = w.roots[op[2]]
            if "root" in w.away[op[2]]:
                continue
            if op[3] == "git" and sha not in w.loose[op[2]]:
                p = ref.git(["hash-object", "-t", t.decode(), "-w", "--stdin", "--literally"], objdir=root, gitdir=ref_gitdir(ctx), input=c)
                if bytes.fromhex(p.stdout.decode().strip()) != sha:
                    raise HarnessError("git stored something else")
                if not os.path.exists(os.path.join(root, sha.hex()[:2], sha.hex()[2:])):
                    ref.write_loose(root, sha, ref.loose_bytes(t, c))       # git found it in a pack
            elif op[3] == "own" and op[2] == 0:
                db = longs[0].db
                longs[0].touched()
                db.store(IStream(t, len(c), BytesIO(c)))
            elif op[3] == "store":
                LooseObjectDB(root).store(IStream(t, len(c), BytesIO(c)))
            elif sha not in w.loose[op[2]]:
                ref.write_loose(root, sha, ref.loose_bytes(t, c))
            w.loose[op[2]].add(sha)
            ctx.label("store %s" % op[3])
            if sha not in removed:
                for l in longs:
                    if ("loose" in l.main and op[2] == 0) or (l.with_alts and l.loaded and op[2] in l.alts and op[2] in (w.alts or [])):
                        l.touched()
                        try:
                            there = l.db.has_object(sha)
                        except OSError:
                            if removed:         # a file of a pack which is gone, but still listed
                                continue
                            raise
                        require(there is True, "%s: a loose object stored meanwhile is missing", l.name)
                        i = l.db.info(sha)
                        require((i.type, i.size) == (t, len(c)), "%s: info of a loose object stored meanwhile", l.name)
                        require(bytes(l.db.stream(sha).read()) == c, "%s: content of a loose object stored meanwhile", l.name)
        elif k == "prune":
            sha = shas[op[1] % len(shas)]
            if sha in w.loose[op[2]] and "root" not in w.away[op[2]]:
                d = os.path.join(w.roots[op[2]], sha.hex()[:2])
                os.remove(os.path.join(d, sha.hex()[2:]))
                if not os.listdir(d):       # as git does
                    os.rmdir(d)
                w.loose[op[2]].discard(sha)
                removed.add(sha)
                ctx.label("prune")
        elif k == "alts":
            w.set_alts(None if op[1] == "remove" else [a for a in (1, 2, 3) if op[2] >> (a - 1) & 1])
            for l in longs:
                if not l.loaded:
                    l.alts = []             # unknown: treated as new
            changed_since = True
            for a in (1, 2, 3):
                removed |= set(shas)
            ctx.label("alternates")
        elif k == "away":
            if w.move(op[1], op[2]):
                changed_since = True
                removed |= set(shas)
                for l in longs:
                    l.vague = True
                ctx.label("directory %s" % ("gone" if w.away[op[1]] else "back"))
        elif k == "q":
            l = longs[op[1] % len(longs)]
            l.touched()
            sha = (shas + absent)[op[2] % (len(shas) + len(absent))]
            try:
                [l.db.has_object, lambda s: s in l.db, l.db.info, lambda s: l.db.stream(s).read()][op[3]](sha)
            except (BadObject, OSError):
                pass            # not judged: no update
        elif k == "all":
            l = longs[op[1] % len(longs)]
            l.touched()
            for sha in shas + absent:
                try:
                    l.db.has_object(sha)
                except OSError:
                    pass
        else:
            l = longs[op[1] % len(longs)]
            was, wasloaded = l.queried, l.loaded
            oblige, must = l.update(op[2])
            try:
                r = l.db.update_cache(op[2]) if op[2] else l.db.update_cache()
            except OSError:
                if l.name == "packs" and w.away[0]:
                    continue
                raise
            if must and was and wasloaded:
                require(bool(r), "%s: an update said that nothing changed", l.name)
            if oblige:
                known, count = fresh_check(l)
                check(l.db, known, count, "long-lived " + l.name)
                l.queried = True
                if was and changed_since:
                    ctx.nontrivial()
                    ctx.label("forced update" if op[2] else "update")
            if l is longs[0] and len(longs) and oblige:
                changed_since = False
    # everything shows after a forced update
    for l in longs:
        if l.name == "packs" and w.away[0]:
            continue
        l.update(True)
        l.db.update_cache(force=True)
        known, count = fresh_check(l)
        check(l.db, known, count, "finally " + l.name)


def ref_gitdir(ctx):
    p = os.path.join(ctx.dir, "g")
    if not os.path.exists(p):
        ref.make_gitdir(p)
    return p


# ---------------------------------------------------------------- a change in the middle of an operation

def race_strategy():
    p = st.integers(0, NPACK - 1)
    packop = st.tuples(st.just("pack"), st.integers(0, NPACK + NALT - 1), st.sampled_from(["both", "both", "both", "swapped", "pack", "idx", "noidx", "nopack", "none"])).map(list)
    change = st.one_of(packop, packop, st.tuples(st.just("alts"), st.integers(0, 7)).map(list), st.tuples(st.just("loose"), st.integers(0, 40), st.integers(0, NALT)).map(list))
    obj = st.tuples(gen.types(), gen.contents(100, 10)).map(list)
    some = st.lists(st.integers(0, 40), min_size=1, max_size=4)
    pk = st.tuples(some, st.integers(0, 1023), st.integers(1, 3)).map(list)
    return st.fixed_dictionaries({
        "objs": st.lists(obj, min_size=1, max_size=6), "packs": st.lists(pk, min_size=NPACK + NALT, max_size=NPACK + NALT), "packdir": st.sampled_from([True, True, True, False]),
        "infodir": st.booleans(), "name": st.just(0), "warm": st.booleans(), "db": st.sampled_from(["git", "git", "packs", "alternates"]),
        "setup": st.lists(change, max_size=3), "before": st.lists(change, max_size=2), "during": st.lists(change, min_size=1, max_size=2),
        "op": st.sampled_from(["update", "update", "force", "has", "ids", "info"]), "obj": st.integers(0, 40), "at": st.integers(1, 25)})


def interrupt(at, action, fn):
    """-> fn(), with action() called before the at-th call to the system made below; True if that happened"""
    import sys
    n = [0]

    def prof(frame, event, arg):
        if event == "c_call" and getattr(arg, "__module__", None) in ("posix", "io", "_io", "mmap"):
            n[0] += 1
            if n[0] == at:
                sys.setprofile(None)
                action()
    sys.setprofile(prof)
    try:
        r = fn()
    finally:
        sys.setprofile(None)
        hit = n[0] >= at
        if not hit:
            action()
    return r, hit


def race_body(case, ctx):
    from gitdb.db import GitDB, PackedDB, ReferenceDB
    from gitdb.exc import BadObject
    w = World(case, ctx)
    if case["db"] == "packs" and not case["packdir"]:
        return

    def change(c):
        if c[0] == "pack":
            w.set_pack(c[1], c[2], 1)
        elif c[0] == "alts":
            w.set_alts([a for a in (1, 2, 3) if c[1] >> (a - 1) & 1])
        else:
            sha, t, data = w.objs[c[1] % len(w.objs)]
            if sha not in w.loose[c[2]]:
                ref.write_loose(w.roots[c[2]], sha, ref.loose_bytes(t, data))
                w.loose[c[2]].add(sha)

    def make():
        return {"git": lambda: GitDB(w.roots[0]), "packs": lambda: PackedDB(os.path.join(w.roots[0], "pack")), "alternates": lambda: ReferenceDB(w.altfile)}[case["db"]]()

    def scope():
        s = {"git": [("loose", 0), ("packs", 0)], "packs": [("packs", 0)], "alternates": []}[case["db"]]
        if case["db"] != "packs":
            for a in w.alts or []:
                s += [("loose", a), ("packs", a)]
        return s
    shas = [o[0] for o in w.objs]
    for c in case["setup"]:
        change(c)
    db = make()
    if case["warm"]:
        for s in shas:
            db.has_object(s)
        list(db.sha_iter())
    for c in case["before"]:
        change(c)
    sha = shas[case["obj"] % len(shas)]
    known = w.known(scope())[0]
    snap = [set(x) for x in w.state], list(w.alts or [])
    fn = {"update": lambda: db.update_cache(), "force": lambda: db.update_cache(True), "has": lambda: db.has_object(sha), "ids": lambda: list(db.sha_iter()),
          "info": lambda: db.info(sha)}[case["op"]]
    fails = None
    hit = False
    try:
        r, hit = interrupt(case["at"], lambda: [change(c) for c in case["during"]], fn)
    except BadObject:
        r, hit = None, True
    except (OSError, ValueError) as e:
        fails = e
        hit = True
    shrunk = any(a - b for a, b in zip(snap[0], w.state)) or set(snap[1]) - set(w.alts or [])
    if fails is not None:
        require(shrunk, "%s raised %r when files were only added meanwhile", case["op"], fails)
    elif not shrunk and (not case["warm"] or not case["before"]):
        # nothing went away (and nothing the database can't know of was there before)
        now = w.known(scope())[0]
        if case["op"] == "has":
            require(r is True if sha in known else r is False or sha in now, "has_object is %r for an object which was %s", r, "there" if sha in known else "not there")
        elif case["op"] == "info":
            require(r is not None if sha in known else r is None or sha in now, "info is %r", r)
        elif case["op"] == "ids":
            ids = {bytes(s) for s in r}
            require(known <= ids <= now, "ids: %s", short(sorted(s.hex() for s in ids)))
    # the directory's time is beyond whatever was seen: a plain update shows the truth
    try:
        db.update_cache()
    except OSError as e:
        require(False, "the update afterwards raised %r", e)
    known, count = w.known(scope())
    new = make()
    for what, d in (("the open database after an update", db), ("a new database", new)):
        for s in shas:
            require(d.has_object(s) is (s in known), "%s: presence of %s should be %r", what, s.hex(), s in known)
            if s in known:
                t, c = w.content[s]
                require(bytes(d.stream(s).read()) == c, "%s: content of %s", what, s.hex())
        ids = [bytes(s) for s in d.sha_iter()]
        require(set(ids) == known and len(ids) == count and d.size() == count, "%s: ids", what)
    ctx.label("%s %s" % (case["op"], "in the middle" if hit else "after"))
    if hit:
        ctx.nontrivial()


# ---------------------------------------------------------------- with git repacking

def git_strategy():
    op = st.one_of(
        st.tuples(st.just("store"), st.lists(st.integers(0, 60), min_size=1, max_size=6)).map(list),
        st.tuples(st.just("git"), st.sampled_from(["repack", "prune-packed", "packloose", "gc", "unpack"])).map(list),
        st.tuples(st.just("check"), st.booleans()).map(list))
    return st.fixed_dictionaries({"n": st.integers(3, 12), "seed": st.integers(0, 1000), "ops": gen.histories(op, 2, 9), "depth": st.sampled_from([0, 1, 10, 50])})


def git_body(case, ctx):
    from gitdb.base import IStream
    from gitdb.db import GitDB
    from io import BytesIO
    gd = os.path.join(ctx.dir, "repo")
    root = ref.make_gitdir(gd)
    base = ref.content(["text", 800, case["seed"]])
    objs = []
    for i in range(case["n"]):
        c = base[:i * 30] + b"%d" % i + base[i * 30:]
        objs.append((ref.obj_id(b"blob", c), c))
    db = GitDB(root)
    require(db.has_object(bytes(20)) is False, "the null id is present")
    present = set()
    last = None
    for op in case["ops"] + [["check", True]]:
        ctx.label(op[0] if op[0] != "git" else "git " + op[1])
        if op[0] == "store":
            for k in op[1]:
                sha, c = objs[k % len(objs)]
                require(db.store(IStream("blob", len(c), BytesIO(c))).binsha == sha, "stored under another id")
                present.add(k % len(objs))
                require(db.has_object(sha), "stored object is missing")
        elif op[0] == "git":
            opts = ["-c", "pack.threads=1"]
            if op[1] in ("repack", "gc"):
                ref.git(opts + ["repack", "-a", "-d", "-k", "-q", "--depth=%d" % case["depth"]], gitdir=gd)
                if op[1] == "gc":
                    ref.git(["prune-packed", "-q"], gitdir=gd)
            elif op[1] == "prune-packed":
                ref.git(["prune-packed", "-q"], gitdir=gd)
            elif op[1] == "packloose" and present:
                ref.git(opts + ["pack-objects", "-q", os.path.join(root, "pack", "pack")], gitdir=gd,
                        input=b"".join(objs[k][0].hex().encode() + b"\n" for k in sorted(present)[::2]))
            elif op[1] == "unpack":
                pd = os.path.join(root, "pack")
                for f in sorted(os.listdir(pd)):
                    if f.endswith(".pack"):
                        data = open(os.path.join(pd, f), "rb").read()
                        tmp = os.path.join(ctx.dir, "moved")
                        for e in os.listdir(pd):
                            if e.startswith(f[:-5]):
                                os.rename(os.path.join(pd, e), tmp)
                        ref.git(["unpack-objects", "-q"], gitdir=gd, input=data)
                        break
        else:
            force = op[1]
            mt = os.stat(os.path.join(root, "pack")).st_mtime_ns
            db.update_cache(force)
            if force or last is None or mt > last + 2000:
                for d, name in ((db, "long-lived"), (GitDB(root), "new")):
                    for k, (sha, c) in enumerate(objs):
                        require(d.has_object(sha) is (k in present), "%s: presence of %s is not %r", name, sha.hex(), k in present)
                        if k in present:
                            s = d.stream(sha)
                            require((s.type, bytes(s.read())) == (b"blob", c), "%s: %s differs", name, sha.hex())
                            require(d.info(sha).size == len(c), "%s: size of %s", name, sha.hex())
                            ctx.nontrivial()
                    ids = set(bytes(s) for s in d.sha_iter())
                    require(ids == {objs[k][0] for k in present}, "%s: enumeration", name)
            last = mt


def sections():
    return [Section("histories", body, strategy(22), quick=4500, thorough=50000),
            Section("races", race_body, race_strategy, quick=2400, thorough=60000),
            Section("git", git_body, git_strategy, quick=120, thorough=3000)]
