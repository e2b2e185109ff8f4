"""Hypothesis strategies shared by the checks. Everything generated is plain JSON-able data (plus bytes)."""
from hypothesis import strategies as st

SMALL_N = [0, 1, 2, 3, 7, 15, 16, 17, 127, 128, 129, 255, 256, 511, 512, 513, 1000]
MID_N = [2047, 2048, 4095, 4096, 4097, 8100, 8180, 8184, 8185, 8190, 8191, 8192, 8193, 8200, 12288, 16384, 20000,
         32767, 32768, 65535, 65536, 65537, 70000]
BIG_N = [131072, 200000, 262144, 300000, 524287, 524288, 524289, 1048575, 1048576, 1048577, 1100000, 2097151, 2097152, 2097153, 4095999, 4096000, 4096001, 4194303, 4194304,
         4194305, 8191999, 8192000, 8192001, 8388607, 8388608, 8388609]

KINDS = ["text", "rand", "zero", "rep", "mix"]


def sizes(maxn=1 << 18):
    s = [n for n in SMALL_N + MID_N + BIG_N if n <= maxn]
    alt = [st.sampled_from([n for n in s if n <= 1000]), st.integers(0, min(maxn, 300)),
           st.sampled_from(s), st.integers(0, min(maxn, 70000)), st.integers(0, maxn)]
    if maxn > 1 << 20:
        big = [n for n in s if n > 1 << 19]
        alt = [alt[0], alt[2], st.sampled_from(big), st.sampled_from(big), st.integers(1 << 19, maxn), st.integers(1 << 19, maxn)]
    return st.one_of(*alt)


def contents(maxn=1 << 18, maxlit=40):
    """bytes or a descriptor"""
    desc = st.tuples(st.sampled_from(KINDS), sizes(maxn), st.integers(0, 30)).map(list)
    if maxn > 1 << 20:
        return st.one_of(st.binary(max_size=maxlit), desc, desc, desc, desc)
    return st.one_of(st.binary(max_size=maxlit), desc)


def small_contents(maxn=600):
    return contents(maxn)


def zdescs():
    full = st.fixed_dictionaries({
        "l": st.integers(0, 9), "w": st.sampled_from([15, 15, 15, 9, 10, 12, 14]), "m": st.sampled_from([8, 9, 1, 4]),
        "s": st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
        "f": st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 3)).map(list), max_size=4)})
    return st.one_of(st.none(), st.fixed_dictionaries({"l": st.integers(0, 9)}), full)


def types():
    return st.integers(0, 3)


def delta_ops(maxops=8, maxins=300):
    enc = st.one_of(st.just(0), st.integers(0, 255))
    big = st.one_of(st.integers(0, 40), st.integers(0, 70000), st.integers(0, (1 << 24)))
    one = st.one_of(
        st.tuples(st.just("c"), big, big, enc).map(list),
        st.tuples(st.just("i"), contents(maxins, 20)).map(list),
        st.tuples(st.just("t"), big, enc).map(list),
        st.tuples(st.just("z"), big, enc).map(list))
    return st.lists(one, min_size=0, max_size=maxops)


def pads():
    return st.one_of(st.just([0, 0]), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list))


def pack_descs(max_objs=10, maxn=3000, idx=(1, 2, 2, 3), chain=False):
    whole = st.fixed_dictionaries({"t": types(), "c": contents(maxn), "z": zdescs()})
    delta = st.fixed_dictionaries({"b": st.integers(0, 30), "ops": delta_ops(), "r": st.integers(0, 1), "z": zdescs(),
                                   "pad": pads()})
    chained = st.fixed_dictionaries({"b": st.just(-1), "ops": delta_ops(4, 60), "r": st.integers(0, 1), "z": st.none()})
    return st.fixed_dictionaries({
        "objs": st.lists(st.one_of(whole, delta, chained), min_size=1, max_size=max_objs),
        "order": st.one_of(st.just([]), st.just(list(range(40))), st.lists(st.integers(0, 99), max_size=max_objs)),
        "idx": st.sampled_from(list(idx)),
        "thr": st.sampled_from([0, 0, 12, 40, 200, 1000])})


def histories(op, lo, hi):
    """lists of operations, half of them long (Hypothesis prefers short ones)"""
    return st.one_of(st.lists(op, min_size=lo, max_size=hi), st.lists(op, min_size=max(lo, hi * 2 // 5), max_size=hi))
