"""Generated sets of object ids, clustered around one another."""
import random

from hypothesis import strategies as st

MAX = (1 << 160) - 1


def ids_strategy(maxn=12, bulk=(0, 0, 0, 5, 40, 400)):
    one = st.one_of(
        st.binary(min_size=20, max_size=20).map(lambda b: ["new", b]),
        st.tuples(st.just("near"), st.integers(0, 20), st.sampled_from([1, -1, 2, 255, 256, 65536, 1 << 80, -(1 << 152), 1 << 152])).map(list),
        st.tuples(st.just("pre"), st.integers(0, 20), st.integers(1, 39), st.integers(0, 15), st.integers(0, 5)).map(list),
        st.tuples(st.just("edge"), st.integers(0, 5)).map(list),
        st.tuples(st.just("first"), st.integers(0, 255), st.integers(0, 2)).map(list))
    return st.fixed_dictionaries({"ids": st.lists(one, max_size=maxn),
                                  "bulk": st.tuples(st.sampled_from(list(bulk)), st.integers(0, 50), st.integers(0, 4)).map(list)})


def nibble(h, i, v):
    return h[:i] + "%x" % v + h[i + 1:]


def expand(desc):
    """-> sorted list of distinct 20 byte ids"""
    out = []
    for d in desc["ids"]:
        if d[0] == "new":
            out.append(d[1])
        elif d[0] == "edge":
            out.append([bytes(20), b"\xff" * 20, bytes(19) + b"\1", b"\xff" * 19 + b"\xfe", b"\x80" + bytes(19), b"\x7f" + b"\xff" * 19][d[1]])
        elif d[0] == "first":
            out.append(bytes([d[1]]) + [bytes(19), b"\xff" * 19, b"\x55" * 19][d[2]])
        elif not out:
            out.append(b"\x12\x34" * 10)
        elif d[0] == "near":
            v = (int.from_bytes(out[d[1] % len(out)], "big") + d[2]) % (MAX + 1)
            out.append(v.to_bytes(20, "big"))
        else:
            # same first d[2] nibbles, then another one
            h = out[d[1] % len(out)].hex()
            r = random.Random(d[4])
            k = d[2]
            h = h[:k] + "%x" % d[3] + "".join("%x" % r.getrandbits(4) for _ in range(39 - k))
            out.append(bytes.fromhex(h))
    n, seed, mode = desc["bulk"]
    r = random.Random("%d/%d" % (seed, mode))
    for _ in range(n):
        b = r.randbytes(20)
        if mode == 1:
            b = bytes([b[0] % 3]) + b[1:]
        elif mode == 2:
            b = bytes([0x42, b[1] % 4]) + b[2:]
        elif mode == 3:
            b = bytes([0xff, 0xff]) + bytes(14) + bytes([0, 0, b[18] % 8, b[19]])
        elif mode == 4:
            b = bytes([b[0] & 0xf0]) + bytes(18) + bytes([b[19]])
        out.append(b)
    return sorted(set(out))
