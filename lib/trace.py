"""Ownership along every accepting path of a built transducer (C05).

``owned(fst, side)`` decides, for every path of any length, that

* every byte of a character of the traced text has the same owner,
* a character that no token owns is whitespace,
* (side "input") every token owns a byte.

The owner of a byte is the one of contracts/alignment.py (owns_input for the
tagger, owns_output for the verbalizer), which is proved to be what
trace_input_spans and transduce_with_spans compute along a path.  The search is
a reachability question in the product of the FST with the automaton reading
the token stream, the UTF-8 automaton and two guesses (whether a character is
whitespace, whether a separator stands just before a token), so it is exact.
"""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

from lib import rat
from lib.rat import np

KINDS = {1: "a character is split between owners", 2: "a character outside the mappings is not whitespace", 3: "a token owns nothing",
         4: "a token starts inside a character"}
_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "trace.cpp")
        d = tempfile.mkdtemp(prefix="verif-trace-")
        so = os.path.join(d, "trace.so")
        try:
            subprocess.run(["g++", "-O2", "-std=c++17", "-shared", "-fPIC", "-o", so, src], check=True, capture_output=True)
            _LIB = ctypes.CDLL(so)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        P = ctypes.c_void_p
        _LIB.trace.restype = P
        _LIB.trace.argtypes = [ctypes.c_int, ctypes.c_int] + [P] * 7 + [ctypes.c_int, ctypes.c_int]
        _LIB.out_states.restype = ctypes.c_int64
        _LIB.out_data.restype = P
        for f in ("out_states", "out_bad", "out_free"):
            getattr(_LIB, f).argtypes = [P]
        for f in ("out_len", "out_data"):
            getattr(_LIB, f).argtypes = [P, ctypes.c_int]
        _LIB.out_free.restype = None
    return _LIB


def utf8_tables():
    """The automaton of one UTF-8 character, with str.isspace() at its end."""
    spaces = [chr(c).encode() for c in range(sys.maxunicode + 1) if not 0xD800 <= c < 0xE000 and chr(c).isspace()]
    nodes = {b"": 0}
    for s in spaces:
        for i in range(1, len(s)):
            nodes.setdefault(s[:i], len(nodes))
    plain = {r: len(nodes) + r - 1 for r in (1, 2, 3)}
    first = len(nodes)
    assert first + 3 < 64
    nxt = np.full((64, 256), -1, np.int16)
    done = np.zeros((64, 256), np.uint8)

    def length(b):
        return 1 if b < 0x80 else 2 if 0xC2 <= b < 0xE0 else 3 if 0xE0 <= b < 0xF0 else 4 if 0xF0 <= b < 0xF5 else 0

    for prefix, node in nodes.items():
        for b in range(1, 256):
            word = prefix + bytes([b])
            n = length(word[0])
            if not n or (prefix and not 0x80 <= b < 0xC0):
                continue
            if word in nodes:
                nxt[node, b] = nodes[word]
            elif len(word) == n:
                nxt[node, b], done[node, b] = 0, 2 if word in spaces else 1
            else:
                nxt[node, b] = plain[n - len(word)]
    for r, node in plain.items():
        for b in range(0x80, 0xC0):
            nxt[node, b], done[node, b] = (0, 1) if r == 1 else (plain[r - 1], 0)
    return np.ascontiguousarray(nxt), np.ascontiguousarray(done)


def owned(fst, side, ignore=()):
    """None when every accepting path obeys the rules; otherwise
    (rule, input bytes, output bytes) of a path that breaks one."""
    fst = fst.copy().connect()
    n, start, off, il, nxt, fin = rat.arrays(fst, "input")
    ol = rat.arrays(fst, "output")[3]
    utf, done = utf8_tables()
    L = lib()
    rat.STATS.queries += 1
    r = L.trace(n, start, *[a.ctypes.data for a in (off, il, ol, nxt, fin, utf, done)], 0 if side == "input" else 1, sum(1 << k for k in ignore))
    try:
        states, bad = L.out_states(r), L.out_bad(r)
        rat.STATS.pairs += states
        words = [ctypes.string_at(L.out_data(r, i), L.out_len(r, i)) if L.out_len(r, i) else b"" for i in (0, 1)]
        return states, (KINDS[bad], words[0], words[1]) if bad else None
    finally:
        L.out_free(r)
