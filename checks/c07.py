"""C07: n-best lists are distinct, best first and stable."""
import time

from contracts import nbest, streams
from lib import common, gen, pipes, proof, replay, wire
from lib.common import Check

TOY = '''
import pynini
from tn.processor import Processor

def toy(tags, verbs, orders):
    """tags: [(input, tag text, weight)], verbs: [(stream, output, weight, loop)]
    -- a processor with exactly these weighted paths; a loop is a pair
    (text, weight) which may be repeated after the output any number of times."""
    p = Processor('toy', token_orders=orders)
    acc = lambda s, w: pynini.accep(pynini.escape(s), weight=w)
    p.tagger = pynini.union(*[pynini.cross(pynini.escape(x), acc(t, w)) for x, t, w in tags])
    vs = []
    for s, o, w, loop in verbs:
        f = pynini.cross(pynini.escape(s), acc(o, w))
        if loop:
            f = f + pynini.cross('', acc(loop[0], loop[1])).star
        vs.append(f)
    p.verbalizer = pynini.union(*vs) if vs else pynini.Fst()
    return p

def ranking(x, tags, verbs, orders, depth):
    """Every output with its least cost, cheapest first."""
    best_tag = {}
    for i, t, w in tags:
        if i == x:
            best_tag[t] = min(w, best_tag.get(t, w))
    outs = {}
    for t, tw in best_tag.items():
        stream, _ = reorder(t, orders)
        mine = {}
        for s, o, w, loop in verbs:
            if s != stream:
                continue
            for k in range(depth if loop else 1):
                oo = o + (loop[0] * k if loop else '')
                ww = w + (loop[1] * k if loop else 0)
                mine[oo] = min(ww, mine.get(oo, ww))
        for o, w in mine.items():
            c = tw + w - min(mine.values())
            outs[o] = min(c, outs.get(o, c))
    return outs

def verify(case):
    x, tags, verbs, orders, n = case
    p = toy(tags, verbs, orders)
    costs = ranking(x, tags, verbs, orders, 12)
    order = sorted(costs.values())
    if not costs:
        for k in (1, 2):
            try:
                p.normalize(x, nbest=k)
            except RuntimeError:
                continue
            raise AssertionError('no path, but no RuntimeError')
        return
    got = p.normalize(x, nbest=n)
    one = p.normalize(x)
    listed = p.normalize(x, nbest=1)
    print('got', got, 'expected costs', sorted((c, o) for o, c in costs.items())[:n + 2])
    if n == 1:
        got = [got]
    assert one == listed == got[0], ('first', one, listed, got)
    assert len(set(got)) == len(got), ('duplicates', got)
    assert len(got) == min(n, len(costs)), ('length', len(got), n, len(costs))
    assert all(g in costs for g in got), ('unreachable output', got)
    assert [costs[g] for g in got] == order[:len(got)], ('order', [costs[g] for g in got], order[:len(got)])
    for k in range(1, n):
        part = p.normalize(x, nbest=k)
        part = [part] if k == 1 else part
        assert part == got[:k], ('not a prefix', k, part, got)
    tagged = p.tag(x, nbest=n)
    tagged = [tagged] if n == 1 else tagged
    best = {}
    for i, t, w in tags:
        if i == x:
            best[t] = min(w, best.get(t, w))
    assert len(set(tagged)) == len(tagged) == min(n, len(best)), ('tags', tagged)
    assert [best[t] for t in tagged] == sorted(best.values())[:n], ('tag order', tagged)
    assert p.tag(x) == tagged[0] or best[p.tag(x)] == best[tagged[0]], ('best tag', p.tag(x), tagged)
'''
T_TOY = TOY + "\nverify(%r)\n"
REAL = '''
def stable(p, x, sizes):
    lists = []
    for n in sizes:
        got = p.normalize(x, nbest=n)
        got = [got] if n == 1 else got
        assert isinstance(got, list) and 1 <= len(got) <= n, (n, got)
        assert len(set(got)) == len(got), ('duplicates', n, got)
        lists.append(got)
    assert p.normalize(x) == lists[0][0]
    for a, b in zip(lists, lists[1:]):
        assert a == b[:len(a)], ('not a prefix', a, b)
        assert len(a) == len(b) or len(a) == sizes[lists.index(a)], ('short list', a, b)
    mapped = p.normalize_with_mapping(x, nbest=sizes[-1])
    assert [m.output_text for m in mapped] == lists[-1], 'mapping n-best differs'
    for n in sizes[:3]:
        tags = p.tag(x, nbest=n)
        tags = [tags] if n == 1 else tags
        assert len(set(tags)) == len(tags) <= n
'''
T_REAL = REAL + "\nx = %r\nprint(p.normalize(x, nbest=%r))\nstable(p, x, %r)\n"
INVALID = '''
from tn.processor import Processor
import pynini
p = Processor('toy')
p.tagger = pynini.cross('a', 't { v: "a" } ')
p.verbalizer = pynini.cross('t { v: "a" }', 'a')
for bad in (True, False, 0, -1, -7, 1.0, 2.5, '1', None, [1], (2,), b'1', float('nan'), float('inf')):
    for x in ('', 'a'):
        for f in (p.tag, p.normalize, p.normalize_with_mapping):
            try:
                r = f(x, nbest=bad)
            except ValueError:
                continue
            raise AssertionError('%s(%r, nbest=%r) = %r was not rejected' % (f.__name__, x, bad, r))
for n in (1, 2, 5, 10 ** 6):
    want = 'a' if n == 1 else ['a']
    assert p.normalize('a', nbest=n) == want, (n, p.normalize('a', nbest=n))
    assert p.normalize('', nbest=n) == ('' if n == 1 else ['']), n
    assert p.tag('', nbest=n) == ('' if n == 1 else ['']), n
'''
W = [0, 0, 1, 1, 2, 3, 0.5, 0.25, 5, -1, 1.5, 0.125]


def case(rng):
    orders = {"d": ["y", "m"]}
    keys = ["y", "m", "z"]
    streams = []
    for _ in range(rng.randint(1, 5)):
        toks = []
        for _ in range(rng.randint(1, 2)):
            ks = rng.sample(keys, rng.randint(1, 2))
            toks.append((rng.choice(["d", "e"]), [(k, rng.choice("ab")) for k in ks]))
        streams.append(" ".join(wire.serialize(n, f) for n, f in toks) + rng.choice(["", " "]))
    x = rng.choice(["q", "中", "a[b"])
    tags = [(x if rng.random() < 0.9 else "w", rng.choice(streams), rng.choice(W)) for _ in range(rng.randint(1, 7))]
    verbs = []
    done = set()
    for t in streams:
        s = wire.reorder(t, orders)[0]
        if s in done or rng.random() < 0.15:
            continue
        done.add(s)
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            loop = (rng.choice(["+", "-"]), rng.choice([1, 2, 0.5])) if rng.random() < 0.15 else None
            verbs.append((s, rng.choice(["p", "r", "s", "t", "u", ""]), rng.choice(W), loop))
    return x, tags, verbs, orders, rng.choice([1, 2, 3, 4, 6, 9])


def toys(count, part):
    out = {"tried": [], "fail": []}
    rng = common.rng("C07", part)
    scope = {"print": lambda *a: None}
    exec(replay.with_module(wire, TOY), scope)
    for _ in range(count):
        c = case(rng)
        out["tried"].append(repr(c))
        try:
            scope["verify"](c)
        except BaseException as e:
            out["fail"].append(("n-best of a weighted pair of transducers", "%r" % (e,), replay.with_module(wire, T_TOY % (c,))))
            if len(out["fail"]) > 2:
                break
    return out


def real(name, count):
    out = {"tried": [], "fail": []}
    p = pipes.build(name)
    scope = {}
    exec(REAL, scope)
    rng = common.rng("C07", name)
    end = time.time() + (40 if not common.THOROUGH else 400)
    texts = gen.texts(rng, name, count)
    rng.shuffle(texts)
    for x in texts:
        if time.time() > end:
            break
        if "\x00" in x:
            continue
        try:
            scope["stable"](p, x, [1, 2, 3, 5])
        except BaseException as e:
            if len(out["fail"]) < 3:
                out["fail"].append((name + " n-best", "text %r: %r" % (x, e), pipes.script(name, T_REAL % (x, 5, [1, 2, 3, 5]))))
        out["tried"].append(name + ": " + x)
    return out


def falsify(chk):
    tasks = [(i, toys, (2000 if common.THOROUGH else 400, i)) for i in range(4)]
    tasks += [(n, real, (n, 60)) for n in pipes.ALL]
    try:
        exec(INVALID, {"print": lambda *a: None})
    except BaseException as e:
        chk.fail_input("nbest validation", "%r" % (e,), INVALID)
    chk.tried("nbest validation", "validation")
    for name, status, value in pipes.parallel(tasks):
        if status != "ok":
            chk.obligation(str(name), False, "run")
            chk.fail_obligation("n-best runs", value)
            continue
        for x in value["tried"]:
            chk.tried(x[:200], x)
        for f in value["fail"]:
            chk.fail_input(*f)


def body(v):
    streams.prove(v)


def check():
    chk = Check("C07", "proof",
                trusted=["OpenFst: shortestpath(nshortest=n, unique=True) of an epsilon-free acceptor gives its n best distinct texts in non-decreasing weight, "
                         "all of them when there are fewer", "the induction rule: base and step obligations imply the lemma", "heapq keeps a least entry first"],
                assumptions=["path costs are real numbers (the code has binary floating point)",
                             "termination of the candidate loop is not proved (a tag may have infinitely many verbalizations with outputs already listed)",
                             "TokenParser.reorder of a tag is a function of the tag (C03); it raises only for a malformed tag (C16: no tag is)"])
    chk.rule = "random weighted tagger/verbalizer pairs run through the real Processor and compared with brute-force enumeration; the six pipelines for prefix stability"
    proof.prove(chk, "C07", body, 150)
    proof.prove(chk, "C07", nbest.prove, 400)
    falsify(chk)
    return chk
