"""C21 Writers hash and pass on exactly what is written."""
import fcntl
import hashlib
import os
import zlib

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, Violation, require, short

RULE = ("a case is a writer (all kinds) and a history of writes of pieces as bytes, bytearray or memoryview, of questions for the id, and of reads or rewinds where "
        "there are any, or a copy from a source which hands out any portions; non-trivial = at least two pieces with data were written, or a destination took or a source gave only a part")
ASSUMPTIONS = ["hashlib and zlib are right"]

KINDS = ["sha", "flex", "zip", "fdz", "fd", "null"]


def piece(maxn):
    return st.tuples(gen.contents(maxn, 30), st.sampled_from(["bytes", "bytes", "bytearray", "view"])).map(list)


def strategy(maxn, maxops):
    def s():
        op = st.one_of(st.tuples(st.just("w"), piece(maxn)).map(list), st.tuples(st.just("w"), piece(maxn)).map(list), st.tuples(st.just("sha"), st.booleans()).map(list))
        return st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "ops": gen.histories(op, 1, maxops), "reads": st.lists(st.integers(1, 70000), min_size=1, max_size=4)})
    return s


def as_kind(b, how):
    return b if how == "bytes" else bytearray(b) if how == "bytearray" else memoryview(b)


def body(case, ctx):
    from gitdb.stream import FDCompressedSha1Writer, FDStream, FlexibleSha1Writer, NullStream, Sha1Writer, ZippedStoreShaWriter
    kind = case["kind"]
    out = []
    path = os.path.join(ctx.dir, "f")
    fd = None
    nfd = len(os.listdir("/proc/self/fd"))
    if kind in ("fdz", "fd"):
        fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_EXCL)
    w = {"sha": Sha1Writer, "flex": lambda: FlexibleSha1Writer(lambda d: out.append(bytes(d))), "zip": ZippedStoreShaWriter, "fdz": lambda: FDCompressedSha1Writer(fd),
         "fd": lambda: FDStream(fd), "null": NullStream}[kind]()
    h = hashlib.sha1()
    total = []
    for op in case["ops"]:
        if op[0] == "w":
            data = ref.content(op[1][0])
            r = w.write(as_kind(data, op[1][1]))
            if kind != "fd":
                require(r == len(data), "write returned %r for %d bytes", r, len(data))
            h.update(data)
            total.append(data)
            if kind == "fd":
                require(w.tell() == sum(map(len, total)), "tell is %r after %d bytes", w.tell(), sum(map(len, total)))
            if kind == "flex":
                require(b"".join(out) == b"".join(total), "other data was passed on")
        elif kind not in ("fd", "null"):
            got = w.sha(as_hex=op[1])
            require(got == (h.hexdigest() if op[1] else h.digest()), "id %s instead of %s", short(got), h.hexdigest())
    total = b"".join(total)
    ctx.label(kind)
    ctx.nontrivial(sum(1 for o in case["ops"] if o[0] == "w" and len(ref.content(o[1][0]))) > 1)
    if kind not in ("fd", "null"):
        require(w.sha() == h.digest() and w.sha(as_hex=True) == h.hexdigest(), "id is not that of the data")
    if kind == "zip":
        w.close()
        require(w.sha() == h.digest(), "id changed by closing")
        require(zlib.decompress(w.getvalue()) == total, "holds other data")
        raw = w.getvalue()
        for n in case["reads"]:
            n = max(n, len(raw) // 300)
            w.seek(0)
            got = []
            while True:
                d = w.read(n)
                require(len(d) <= n, "read(%d) returned %d bytes", n, len(d))
                got.append(d)
                if not d:
                    break
            got = b"".join(got)
            require(got == raw, "reads other data")
        for bad in ((1, 0), (0, 2), (0, 1)):
            try:
                w.seek(*bad)
            except ValueError:
                pass
            else:
                require(False, "seek%r was accepted", bad)
    elif kind == "fdz":
        w.close()
        require(len(os.listdir("/proc/self/fd")) == nfd, "the descriptor is open after closing")
        require(w.sha() == h.digest(), "id changed by closing")
        with open(path, "rb") as f:
            raw = f.read()
        d = zlib.decompressobj()
        require(d.decompress(raw) + d.flush() == total and d.eof and not d.unused_data, "the file holds other data")
    elif kind == "fd":
        require(w.fileno() == fd, "fileno")
        w.close()
        require(len(os.listdir("/proc/self/fd")) == nfd, "the descriptor is open after closing")
        with open(path, "rb") as f:
            require(f.read() == total, "the file holds other data")
        w = FDStream(os.open(path, os.O_RDONLY))
        pos = 0
        for i in range(40):
            n = case["reads"][i % len(case["reads"])]
            d = w.read(n)
            require(d == total[pos:pos + n], "read(%d) at %d of %d returned %d bytes", n, pos, len(total), len(d))
            pos += len(d)
            require(w.tell() == pos, "tell is %r at %d", w.tell(), pos)
            if not d:
                break
        rest = w.read() if len(total) % 2 else w.read(0)
        require(rest == total[pos:], "read() at %d of %d returned %d bytes", pos, len(total), len(rest))
        require(w.tell() == len(total), "tell is %r at the end (%d)", w.tell(), len(total))
        w.close()
        require(len(os.listdir("/proc/self/fd")) == nfd, "the descriptor is open after closing")
    elif kind == "null":
        w.close()
        require(not w.read() and not w.read(10), "reads something")


# ---------------------------------------------------------------- destinations which take only a part

def short_strategy():
    return st.fixed_dictionaries({"kind": st.sampled_from(["fd", "fdz"]), "free": st.sampled_from([0, 1, 100, 4096, 30000]), "level": st.booleans(),
                                  "pieces": st.lists(st.tuples(st.sampled_from(["rand", "text"]), st.sampled_from([1, 10, 5000, 70000, 200000]), st.integers(0, 30)).map(list), min_size=1, max_size=5)})


def short_body(case, ctx):
    """a pipe which isn't emptied takes 64 KiB: either all is in the pipe, or the writer raised"""
    from gitdb.stream import FDCompressedSha1Writer, FDStream
    r, w = os.pipe()
    nfd = len(os.listdir("/proc/self/fd"))
    try:
        os.set_blocking(w, False)
        cap = fcntl.fcntl(w, 1032)      # F_GETPIPE_SZ
        fill = os.write(w, bytes(max(cap - 4096 * (1 + case["free"] // 4096), 0)))
        fw = (FDStream if case["kind"] == "fd" else FDCompressedSha1Writer)(w)
        total = []
        err = None
        try:
            for p in case["pieces"]:
                data = ref.content(p)
                fw.write(data)
                total.append(data)
        except OSError as e:
            err = e
        try:
            fw.close()
        except OSError as e:
            err = err or e
        require(len(os.listdir("/proc/self/fd")) == nfd - 1, "the descriptor is open after closing")
        got = []
        while True:
            d = os.read(r, 1 << 20)
            if not d:
                break
            got.append(d)
        got = b"".join(got)[fill:]
        ctx.label("failed" if err else "taken")
        ctx.nontrivial(err is not None)
        if err is None:
            total = b"".join(total)
            if case["kind"] == "fdz":
                d = zlib.decompressobj()
                try:
                    got = d.decompress(got) + d.flush()
                except zlib.error:
                    raise Violation("the destination didn't get all of the data, and no error was raised")
                require(d.eof, "the destination didn't get all of the data, and no error was raised")
            require(got == total, "the destination has %d bytes of %d, and no error was raised", len(got), len(total))
    finally:
        os.close(r)
        try:
            os.close(w)
        except OSError:
            pass


# ---------------------------------------------------------------- copying

def copy_strategy():
    return st.fixed_dictionaries({"c": gen.contents(300000, 60), "size": st.sampled_from(["all", "all", "part", "more", "max", "zero"]), "x": st.integers(0, 1000),
                                  "chunk": st.sampled_from([1, 2, 7, 100, 512, 4096, 65536, 1000000]), "pieces": st.lists(st.integers(1, 5000), max_size=5),
                                  "t": gen.types(), "object": st.booleans(), "none": st.booleans()})


def copy_body(case, ctx):
    """stream_copy and write_object take as much as asked for, in bounded portions, however the source hands it out"""
    import sys
    from gitdb.fun import stream_copy, write_object
    c = ref.content(case["c"])
    chunk = max(case["chunk"], len(c) // 400, 1)
    size = {"all": len(c), "part": len(c) * case["x"] // 1000, "more": len(c) + 1 + case["x"], "max": sys.maxsize, "zero": 0}[case["size"]]
    pos, calls, out = [0], [0], []

    def read(n):
        require(0 < n <= chunk and n <= size - pos[0], "%d bytes are read at %d of %d, in portions of %d", n, pos[0], size, chunk)
        if case["pieces"]:
            n = min(n, max(case["pieces"][calls[0] % len(case["pieces"])], len(c) // 400))
        calls[0] += 1
        d = c[pos[0]:pos[0] + n]
        pos[0] += len(d)
        return d

    def write(d):
        out.append(bytes(d))
        return None if case["none"] and not case["object"] else len(d)
    ctx.nontrivial(bool(case["pieces"]) and len(c) > 1)
    ctx.label(case["size"])
    want = c[:size]
    if not case["object"]:
        r = stream_copy(read, write, size, chunk)
        require(r == len(want), "stream_copy of %d bytes returned %r", len(want), r)
        require(b"".join(out) == want, "%d bytes were copied instead of %d, or others", len(b"".join(out)), len(want))
        require(pos[0] == len(want), "%d bytes were taken from the source instead of %d", pos[0], len(want))
        return
    typ = ref.TYPES[case["t"]]
    head = typ + b" " + b"%d" % size + b"\0"
    try:
        r = write_object(typ, size, read, write, chunk)
    except OSError:
        require(size > len(c), "an object of %d bytes can't be written", size)
        return
    require(size <= len(c), "an object of %d bytes was written with %d", size, len(c))
    require(b"".join(out) == head + want, "other data was written")
    require(r == len(head) + size, "write_object of %d + %d bytes returned %r", len(head), size, r)


def sections():
    return [Section("copy", copy_body, copy_strategy, quick=2500, thorough=40000),
            Section("writers", body, strategy(5000, 10), quick=4000, thorough=80000),
            Section("larger", body, strategy(1200000, 4), quick=400, thorough=8000),
            Section("partial", short_body, short_strategy, quick=600, thorough=12000)]
