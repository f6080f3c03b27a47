"""Decision procedures for the theory of rational languages/relations used by
the grammar contracts.  Everything works on the byte-labelled FSTs that the
code in /repo actually built (pynini ``Fst``), is exact (no length bound), and
returns a concrete witness string when the contract does not hold.

 * ``included(A, B)``       L(A) subset of L(B)            (antichain search)
 * ``empty(A)``             L(A) = {}                      (shortest string)
 * ``subset_identity(T)``   T subset of {(x, x)}           (delay propagation)
 * ``functional_within``    T subset of the function F     (via F^-1 @ T)

All four are complete: "holds" means for every string of every length.
"""
import collections
import ctypes
import os
import shutil
import struct
import subprocess
import tempfile

from lib import common  # noqa: F401  (puts the tool packages on the path)
import numpy as np
import pynini
from pynini.lib import byte, utf8

V = utf8.VALID_UTF8_CHAR


class Stats:
    """Counts what the decision procedures actually explored."""

    def __init__(self):
        self.queries = 0
        self.pairs = 0
        self.arcs = 0


STATS = Stats()


# ------------------------------------------------------------------ C++ engine
_LIB = None


def _lib():
    """Compiles lib/ratc.cpp once per process tree (about two seconds)."""
    global _LIB
    if _LIB is None:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ratc.cpp")
        d = tempfile.mkdtemp(prefix="verif-ratc-")
        so = os.path.join(d, "ratc.so")
        try:
            subprocess.run(["g++", "-O2", "-std=c++17", "-shared", "-fPIC", "-o", so, src], check=True,
                           capture_output=True)
            _LIB = ctypes.CDLL(so)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        P = ctypes.c_void_p
        _LIB.nfa_new.restype = P
        _LIB.nfa_new.argtypes = [ctypes.c_int, ctypes.c_int, P, P, P, P]
        _LIB.nfa_free.argtypes = [P]
        _LIB.search.restype = P
        _LIB.search.argtypes = [P, P, P, ctypes.c_int, ctypes.c_int]
        for f in ("res_pairs", "res_found", "res_len", "res_ends", "res_free"):
            getattr(_LIB, f).argtypes = [P]
        _LIB.res_pairs.restype = ctypes.c_int64
        _LIB.res_free.restype = None
        for f in ("end_len", "end_data", "endw_len", "endw_data"):
            getattr(_LIB, f).argtypes = [P, ctypes.c_int]
        for f in ("res_word", "end_data", "endw_data"):
            getattr(_LIB, f).restype = P
        _LIB.res_word.argtypes = [P]
    return _LIB


prepare = _lib


def arrays(fst, side):
    """(n, start, offsets, labels, nextstates, finals) of a pynini Fst, read
    from its OpenFst binary serialization (vector, standard arcs)."""
    fst = pynini.Fst.from_pywrapfst(fst) if not isinstance(fst, pynini.Fst) else fst
    if fst.fst_type() != "vector" or fst.arc_type() != "standard":
        raise ValueError("unexpected FST type")
    data = fst.write_to_string()
    pos = 4
    for _ in range(2):
        k = struct.unpack_from("<i", data, pos)[0]
        pos += 4 + k
    _, flags = struct.unpack_from("<ii", data, pos)
    if flags & 3:
        fst = fst.copy()
        fst.set_input_symbols(None)
        fst.set_output_symbols(None)
        return arrays(fst, side)
    pos += 8 + 8
    start, n, _ = struct.unpack_from("<qqq", data, pos)
    pos += 24
    off = np.zeros(n + 1, np.int64)
    fin = np.zeros(n, np.uint8)
    chunks = []
    dt = np.dtype([("i", "<i4"), ("o", "<i4"), ("w", "<f4"), ("n", "<i4")])
    inf = float("inf")
    unpack = struct.Struct("<fq").unpack_from
    for q in range(n):
        w, m = unpack(data, pos)
        pos += 12
        fin[q] = w != inf
        if m:
            chunks.append((pos, m))
            pos += 16 * m
        off[q + 1] = off[q] + m
    total = int(off[n])
    arcs = np.empty(total, dt)
    k = 0
    for p, m in chunks:
        arcs[k:k + m] = np.frombuffer(data, dt, m, p)
        k += m
    STATS.arcs += total
    lab = np.ascontiguousarray(arcs["i" if side == "input" else "o"])
    nxt = np.ascontiguousarray(arcs["n"])
    return n, start, off, lab, nxt, fin


class CNFA:
    """One tape of an FST inside the C++ engine."""

    def __init__(self, fst, side="input"):
        self.n, self.start, off, lab, nxt, fin = arrays(fst, side)
        self.handle = _lib().nfa_new(self.n, self.start, off.ctypes.data, lab.ctypes.data, nxt.ctypes.data, fin.ctypes.data)

    def __del__(self):
        if getattr(self, "handle", None) and _LIB is not None:
            _LIB.nfa_free(self.handle)
            self.handle = None


def _search(A, B, start=None, sep=-1):
    lib = _lib()
    STATS.queries += 1
    if start is None:
        r = lib.search(A.handle, B.handle, None, -1, sep)
    else:
        cfg = np.array(sorted(start), np.int32)
        r = lib.search(A.handle, B.handle, cfg.ctypes.data, len(cfg), sep)
    try:
        STATS.pairs += lib.res_pairs(r)
        found = lib.res_found(r)
        w = ctypes.string_at(lib.res_word(r), lib.res_len(r)) if found and lib.res_len(r) else (b"" if found else None)
        ends = {}
        for i in range(lib.res_ends(r)):
            k = lib.end_len(r, i)
            cfg = np.ctypeslib.as_array(ctypes.cast(lib.end_data(r, i), ctypes.POINTER(ctypes.c_int32)), (k,)).tolist() if k else []
            kw = lib.endw_len(r, i)
            ends[frozenset(cfg)] = ctypes.string_at(lib.endw_data(r, i), kw) if kw else b""
        return w, ends
    finally:
        lib.res_free(r)


class NFA:
    """Byte NFA seen through one tape of an FST."""

    def __init__(self, fst, side="input"):
        n = fst.num_states()
        self.n = n
        self.start = fst.start()
        self.arcs = [None] * n
        self.eps = [()] * n
        self.final = [False] * n
        inp = side == "input"
        zero = pynini.Weight.zero(fst.weight_type())
        for q in range(n):
            d = {}
            e = []
            for a in fst.arcs(q):
                STATS.arcs += 1
                label = a.ilabel if inp else a.olabel
                if label:
                    d.setdefault(label, set()).add(a.nextstate)
                else:
                    e.append(a.nextstate)
            self.arcs[q] = d
            self.eps[q] = e
            self.final[q] = fst.final(q) != zero
        self._clo = {}

    def clo1(self, q):
        c = self._clo.get(q)
        if c is None:
            seen = {q}
            st = [q]
            while st:
                x = st.pop()
                for y in self.eps[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            c = frozenset(x for x in seen if self.arcs[x] or self.final[x])
            self._clo[q] = c
        return c

    def closure(self, qs):
        out = set()
        for q in qs:
            out |= self.clo1(q)
        return frozenset(out)

    def step(self, S, label):
        t = set()
        for q in S:
            x = self.arcs[q].get(label)
            if x:
                t |= x
        return self.closure(t)


def included(A, B, aside="input", bside="input"):
    """None when L(A) is a subset of L(B); otherwise a witness (bytes)."""
    A = A if isinstance(A, CNFA) else CNFA(A, aside)
    B = B if isinstance(B, CNFA) else CNFA(B, bside)
    return _search(A, B)[0]


def empty(A, side="input"):
    """None when the language is empty, otherwise a member (bytes)."""
    pair = any_pair(A)
    return None if pair is None else pair[0 if side == "input" else 1]


def any_pair(fst):
    """A pair (x, y) of the relation reached with few arcs, or None."""
    STATS.queries += 1
    if fst.start() == -1:
        return None
    zero = pynini.Weight.zero(fst.weight_type())
    back = {fst.start(): None}
    queue = collections.deque([fst.start()])
    while queue:
        p = queue.popleft()
        if fst.final(p) != zero:
            i, o = [], []
            q = p
            while back[q] is not None:
                q, il, ol = back[q]
                if il:
                    i.append(il)
                if ol:
                    o.append(ol)
            return bytes(reversed(i)), bytes(reversed(o))
        for a in fst.arcs(p):
            if a.nextstate not in back:
                back[a.nextstate] = (p, a.ilabel, a.olabel)
                queue.append(a.nextstate)
    return None


def subset_identity(T):
    """None when every pair (x, y) of T has x == y; otherwise a pair x != y."""
    STATS.queries += 1
    T = T.copy().connect()
    if T.start() == -1:
        return None
    zero = pynini.Weight.zero(T.weight_type())
    # shortest completion from every state (for witnesses)
    rev = collections.defaultdict(list)
    for q in range(T.num_states()):
        for a in T.arcs(q):
            STATS.arcs += 1
            rev[a.nextstate].append((q, a.ilabel, a.olabel))
    comp = {}
    queue = collections.deque()
    for q in range(T.num_states()):
        if T.final(q) != zero:
            comp[q] = None
            queue.append(q)
    while queue:
        q = queue.popleft()
        for p, i, o in rev[q]:
            if p not in comp:
                comp[p] = (q, i, o)
                queue.append(p)

    def completion(q):
        i_, o_ = [], []
        while comp[q] is not None:
            q, i, o = comp[q]
            if i:
                i_.append(i)
            if o:
                o_.append(o)
        return bytes(i_), bytes(o_)

    def prefix(w):
        i_, o_ = [], []
        while w is not None:
            w, i, o = w
            if i:
                i_.append(i)
            if o:
                o_.append(o)
        return bytes(reversed(i_)), bytes(reversed(o_))

    # delay: (ahead_in, ahead_out) with at most one of them non-empty
    delay = {T.start(): (b"", b"")}
    path = {T.start(): None}
    queue = collections.deque([T.start()])

    def witness(q, w):
        ci, co = completion(q)
        pi, po = prefix(w)
        return pi + ci, po + co

    while queue:
        p = queue.popleft()
        STATS.pairs += 1
        di, do = delay[p]
        if T.final(p) != zero and (di or do):
            return witness(p, path[p])
        for a in T.arcs(p):
            ni = di + (bytes([a.ilabel]) if a.ilabel else b"")
            no = do + (bytes([a.olabel]) if a.olabel else b"")
            k = 0
            m = min(len(ni), len(no))
            while k < m and ni[k] == no[k]:
                k += 1
            w = (path[p], a.ilabel, a.olabel)
            ni, no = ni[k:], no[k:]
            if ni and no:
                return witness(a.nextstate, w)
            q = a.nextstate
            if q not in delay:
                delay[q] = (ni, no)
                path[q] = w
                queue.append(q)
            elif delay[q] != (ni, no):
                x = witness(q, w)
                if x[0] != x[1]:
                    return x
                x = witness(q, path[q])
                assert x[0] != x[1]
                return x
    return None


def functional_within(T, F):
    """T subset of the function F (restricted to dom(T)).

    Returns None, or ("domain", x) when F is undefined on x in dom(T), or
    ("value", F(x), y) when T relates x to y != F(x).
    """
    w = included(T, F)
    if w is not None:
        return ("domain", w)
    w = subset_identity((pynini.invert(F) @ T))
    if w is not None:
        return ("value",) + w
    return None


def minimal(configs):
    """Minimal elements (fewer NFA states accept less, so they subsume)."""
    out = []
    for T in sorted(configs, key=len):
        if not any(U <= T for U in out):
            out.append(T)
    return out


def token_contract(D, B, sep=b" ", start=None):
    """One pass over D x subsets(B), B started in configuration ``start``.

    Returns (w, ends): w is a word of L(D) which B does not accept from
    ``start`` (None when the contract holds); ends maps every minimal
    configuration B can be in after a word of L(D) followed by ``sep`` to
    such a word.  A set of configurations which contains the initial one, is
    closed under ``ends`` and from each of which every token is accepted is an
    inductive invariant of reading token streams of any length.
    """
    D = D if isinstance(D, CNFA) else CNFA(D)
    B = B if isinstance(B, CNFA) else CNFA(B)
    return _search(D, B, start, sep[0])


def accep_raw(b):
    """Acceptor for a raw byte string (no bracket interpretation)."""
    if isinstance(b, bytes):
        b = "".join("[0x%02x]" % x for x in b)
        return pynini.accep(b) if b else pynini.accep("")
    return pynini.accep(pynini.escape(b))


def total(fst):
    """Every non-empty string of valid UTF-8 characters is in dom(fst)."""
    return included(pynini.determinize(V.plus.optimize()).minimize(), fst)
