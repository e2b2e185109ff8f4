"""C23 Files and memory blocks are presented exactly."""
import os

from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Section, require, short

RULE = ("a case is a file's content and a way to see it (memory map, memory, stream, sliding buffer), with slices and reads of it; or a block of memory and writes and reads; "
        "non-trivial = the content is not empty and at least one slice or read lies in its middle")
ASSUMPTIONS = ["an empty file isn't given to sliding_ro_buffer (smmap refuses it)", "files are regular ones which don't change meanwhile"]


def strategy():
    rng = st.tuples(st.integers(0, 1000), st.integers(0, 1000)).map(list)
    return st.fixed_dictionaries({"c": gen.contents(300000, 60), "how": st.sampled_from(["map", "mapstream", "mem", "memstream", "sliding", "block"]), "by": st.booleans(),
                                  "ranges": st.lists(rng, min_size=1, max_size=6), "reads": st.lists(st.integers(1, 9000), min_size=1, max_size=5),
                                  "flag": st.booleans(), "name": st.integers(0, 3), "fd0": st.sampled_from([False, False, True])})


def body(case, ctx):
    from gitdb.util import allocate_memory, file_contents_ro, file_contents_ro_filepath, mman, sliding_ro_buffer
    c = ref.content(case["c"])
    how = case["how"]
    path = os.path.join(ctx.dir, ["f", "with blank", "\u00e9\u6f22", "[a]*?"][case["name"]])
    with open(path, "wb") as f:
        f.write(c)
    if case.get("fd0"):
        ctx.free_fd0()
    nfd = len(os.listdir("/proc/self/fd"))
    before = os.stat(path)
    if how == "block":
        m = allocate_memory(len(c))
        require(len(m) == len(c), "a block of %d bytes has %d", len(c), len(m))
        pos = 0
        i = 0
        while pos < len(c):
            n = case["reads"][i % len(case["reads"])] * 7
            i += 1
            m.write(c[pos:pos + n])
            pos += len(c[pos:pos + n])
            require(m.tell() == pos, "tell is %d at %d", m.tell(), pos)
        m.seek(0)
    elif how == "sliding":
        if not c:
            return
        m = sliding_ro_buffer(path)
    else:
        kw = dict(stream=how.endswith("stream"), allow_mmap=how.startswith("map"))
        if case["by"]:
            flags = os.O_CLOEXEC if case["flag"] else 0
            m = file_contents_ro_filepath(path, flags=flags, **kw)
            if not how.startswith("map") or not c:
                require(len(os.listdir("/proc/self/fd")) == nfd, "the file stays open")
        else:
            fd = os.open(path, os.O_RDONLY)
            m = file_contents_ro(fd, **kw)
            os.fstat(fd)            # is still open
            os.close(fd)
    require(len(m) == len(c), "%s: %d bytes of %d", how, len(m), len(c))
    for a, b in case["ranges"]:
        a, b = sorted((a * len(c) // 1000, b * len(c) // 1000))
        if how == "sliding" and a == b:
            continue
        require(bytes(m[a:b]) == c[a:b], "%s: slice %d:%d of %d differs", how, a, b, len(c))
        if b < len(c):
            v = m[b]
            require((v if isinstance(v, int) else ord(v)) == c[b], "%s: byte %d of %d differs", how, b, len(c))
        ctx.nontrivial(0 < a < b < len(c))
    if c or how != "sliding":
        require(bytes(m[0:len(c)]) == c, "%s: content differs", how)
    if how in ("mapstream", "memstream", "block"):
        pos, got = 0, []
        for i in range(100):
            n = case["reads"][i % len(case["reads"])]
            d = m.read(n)
            require(bytes(d) == c[pos:pos + n], "%s: read(%d) at %d of %d returned %d bytes", how, n, pos, len(c), len(d))
            pos += len(d)
            if not d:
                break
        m.seek(0)
        require(bytes(m.read(len(c))) == c and not m.read(1), "%s: reading again differs", how)
        if len(c) > 1:
            m.seek(len(c) // 2)
            require(bytes(m.read(len(c))) == c[len(c) // 2:], "%s: reading from the middle differs", how)
    if how == "map" and c:
        try:
            m[0:1] = b"x"
        except TypeError:
            pass
        # whether it refuses or not: the file stays as it is, which the next lines see
    with open(path, "rb") as f:
        require(f.read() == c, "the file was changed")
    require((before.st_mtime_ns, before.st_ino) == (os.stat(path).st_mtime_ns, os.stat(path).st_ino), "the file was touched")
    if how == "sliding":
        m.end_access()
    del m
    mman.collect()
    require(len(os.listdir("/proc/self/fd")) == nfd, "%s: the file stays open", how)
    try:
        file_contents_ro_filepath(path + ".none")
    except OSError:
        pass
    else:
        require(False, "a missing file has contents")
    require(len(os.listdir("/proc/self/fd")) == nfd, "a descriptor stays open after a failure")
    ctx.label(how)


def body_big(case, ctx):
    from gitdb.util import file_contents_ro_filepath, mman, sliding_ro_buffer
    path = os.path.join(ctx.dir, "big")
    n = case["n"]
    with open(path, "wb") as f:
        f.write(b"begin")
        f.seek(n - 3)
        f.write(b"end")
    for mm in (True, False):
        m = file_contents_ro_filepath(path, allow_mmap=mm)
        require(len(m) == n and bytes(m[:5]) == b"begin" and bytes(m[n - 3:n]) == b"end", "%d bytes of %d are seen (map allowed: %r)", len(m), n, mm)
        del m
    m = sliding_ro_buffer(path)
    require(len(m) == n, "a sliding buffer has %d bytes of %d", len(m), n)
    for a, b in ((0, 5), (n - 3, n), (n // 2 - 2, n // 2 + 2), (5, 70), (n - 100, n)):
        want = bytes(b - a)
        if a < 5:
            want = b"begin"[a:b] + bytes(max(b - 5, 0))
        if b > n - 3:
            want = want[:n - 3 - a] + b"end"
        require(bytes(m[a:b]) == want, "a sliding buffer of %d bytes: slice %d:%d differs", n, a, b)
    require(m[n - 1] in (b"d", b"d"[0]) and m[n - 1] == m[-1], "the last byte of a sliding buffer of %d bytes differs", n)
    m.end_access()
    del m
    mman.collect()
    ctx.nontrivial()


def big(tier, seed):
    yield {"n": (1 << 31) + 100}
    for n in (70 << 20, (64 << 20) + 1, (64 << 20) - 1, 16 << 20):
        yield {"n": n}


def sections():
    return [Section("big", body_big, enum=big, shards=8),
            Section("files", body, strategy, quick=4000, thorough=80000)]
