"""C11: publishing a bundle is atomic at every crash point."""
import time

from lib import cachekit, common, pipes, replay
from lib.common import Check

ORACLE = '''
import errno
import resource
import signal
import uuid

V1, V2, V3 = ("T1", "V1"), ("T2", "V2"), ("T3", "V3")

def prepare(cache, state):
    """Puts the cache in an initial state; True when it holds a valid V1."""
    if state == "none":
        return False
    first = make(cache, *V1)
    b = bundle(cache)
    if state == "valid":
        return True
    hidden = str(b.parent) + "/." + b.bundle_digest
    if state == "corrupt":
        with open(b.tagger_path, "ab") as f:
            f.write(b"x")
        return False
    if state == "previous":
        os.rename(b.path, hidden + ".previous-" + uuid.uuid4().hex)
        return True
    if state == "torn-previous":
        # an older complete one and a newer incomplete one
        old = hidden + ".previous-" + uuid.uuid4().hex
        new = hidden + ".previous-" + uuid.uuid4().hex
        shutil.copytree(b.path, new)
        os.unlink(new + "/verbalizer.fst")
        os.rename(b.path, old)
        os.utime(old, (1, 1))
        return True
    if state == "leftovers":
        shutil.copytree(b.path, hidden + ".previous-" + uuid.uuid4().hex)
        shutil.copytree(b.path, hidden + ".corrupt-" + uuid.uuid4().hex)
        t = hidden + ".tmp-abc"
        os.mkdir(t)
        with open(t + "/tagger.fst", "wb") as f:
            f.write(b"part")
        return True
    raise KeyError(state)

STATES = ("none", "valid", "corrupt", "previous", "torn-previous", "leftovers")

def stepper(limit, action):
    """Runs ``action`` before the limit-th line of the cache code."""
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            if count[0] == limit:
                action()
            count[0] += 1
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if f.endswith(("/tn/cache.py", "/tn/processor.py")):
            return local
        return None
    return tracer, count

def operate(cache, overwrite):
    p = make(cache, *V2, overwrite=overwrite)
    return [p.built, list(held(p))]

def aftermath(cache, had_v1, note, now=None):
    """A stop or error happened: what do later readers and builders see?"""
    b = bundle(cache)
    got = pair(b.load())
    assert got in (None, V1, V2), (note, "a mixed or partial pair is visible", got)
    assert got != V1 or had_v1, (note, "an invalid bundle came back", got)
    if now is not None and had_v1:
        assert got in now, (note, "the valid bundle was lost", got)
    p = make(cache, *V3)
    if had_v1:
        assert p.built == 0 and held(p) in (V1, V2), (note, "a complete published bundle was lost", p.built, held(p))
    else:
        assert (p.built, held(p)) in ((0, V2), (1, V3)), (note, "the next construction is wrong", p.built, held(p))
    q = make(cache, "T4", "V4")
    assert q.built == 0 and held(q) == held(p), (note, "the recovered bundle is not used", held(q), held(p))

def crash(state, overwrite, k):
    """Stops the process before the k-th executed line; False past the end."""
    with scratch() as top:
        cache = top + "/c"
        had = prepare(cache, state)

        def child():
            tracer, count = stepper(k, lambda: os._exit(77))
            sys.settrace(tracer)
            try:
                return operate(cache, overwrite)
            finally:
                sys.settrace(None)
        code, out = in_child(child)
        assert code in (0, 77), (state, overwrite, k, "the construction failed", out)
        aftermath(cache, had, (state, "overwrite" if overwrite else "keep", "stopped before line %d" % k))
        return code == 77

CALLS = ("fsync", "write", "lstat", "fstat", "replace", "rename", "unlink", "rmdir", "mkdir", "listdir", "scandir", "open", "ftruncate", "lseek", "read")

def fault(state, overwrite, k, forever):
    """The k-th file-system call fails (and all later ones when forever)."""
    with scratch() as top:
        cache = top + "/c"
        had = prepare(cache, state)

        def child():
            import builtins
            n = [0]
            real = {c: getattr(os, c) for c in CALLS}
            real_open = builtins.open

            def failing(fn):
                def call(*a, **kw):
                    n[0] += 1
                    if n[0] - 1 == k or forever and n[0] - 1 > k:
                        raise OSError(errno.EIO, "injected")
                    return fn(*a, **kw)
                return call
            import tn.processor, uuid, json, platform, tempfile, fcntl, hashlib
            for c, fn in real.items():
                setattr(os, c, failing(fn))
            builtins.open = failing(real_open)
            try:
                try:
                    r = operate(cache, overwrite)
                    return ["done", r, n[0]]
                except Exception as e:
                    return ["raised", repr(e), n[0]]
            finally:
                for c, fn in real.items():
                    setattr(os, c, fn)
                builtins.open = real_open
        code, out = in_child(child)
        assert code == 0, (state, overwrite, k, "the construction died", out)
        note = (state, "overwrite" if overwrite else "keep", "%s call %d on fails" % ("every" if forever else "only", k), out)
        if out[0] == "done":
            assert out[1] in ([1, list(V2)], [0, list(V1)]), (note, "wrong grammar")
        now = (V1, V2) if state in ("valid", "leftovers") and not forever else None
        aftermath(cache, had, note, now)
        return out[2] > k

def full_disk(state, size):
    """Files cannot grow past ``size`` bytes: every write is cut there."""
    with scratch() as top:
        cache = top + "/c"
        had = prepare(cache, state)

        def child():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
            try:
                return ["done", operate(cache, True)]
            except Exception as e:
                return ["raised", repr(e)]
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        code, out = in_child(child)
        assert code == 0, (state, size, "the construction died", out)
        note = (state, "no file beyond %d bytes" % size, out)
        if out[0] == "done":
            assert out[1] == [1, list(V2)], (note, "wrong grammar")
        aftermath(cache, had, note, (V1, V2) if state in ("valid", "leftovers") else None)

def repeated(seed):
    """Several stops in a row, then recovery."""
    import random
    rnd = random.Random(seed)
    with scratch() as top:
        cache = top + "/c"
        state = rnd.choice(STATES)
        had = prepare(cache, state)
        log = [state]
        for _ in range(rnd.randint(2, 4)):
            k, over = rnd.randrange(900), rnd.random() < 0.7

            def child():
                tracer, _ = stepper(k, lambda: os._exit(77))
                sys.settrace(tracer)
                operate(cache, over)
                return 1
            log.append((k, over, in_child(child)[0]))
        aftermath(cache, had, log)
'''


def lengths():
    """Number of lines / calls of each scenario on the current code."""
    scope = dict(vars(cachekit))
    exec(ORACLE, scope)
    out = {}
    for s in scope["STATES"]:
        for over in (False, True):
            lo, hi = 0, 1
            while scope["crash"](s, over, hi):
                hi *= 2
                assert hi < 10 ** 6
            while hi - lo > 1:
                mid = (lo + hi) // 2
                lo, hi = (mid, hi) if scope["crash"](s, over, mid) else (lo, mid)
            lines = hi
            calls = 0
            while scope["fault"](s, over, calls, False):
                calls += 8
            out[s, over] = lines, calls
    return out


def work(jobs):
    out = {"tried": [], "fail": []}
    scope = dict(vars(cachekit))
    exec(ORACLE, scope)
    end = time.time() + (240 if not common.THOROUGH else 780)
    skipped = 0
    for name, call in jobs:
        if time.time() > end:
            skipped += 1
            continue
        out["tried"].append(call)
        try:
            exec(call, scope)
        except BaseException as e:
            out["fail"].append((name, "%s: %r" % (call, e), replay.with_module(cachekit, ORACLE + "\n" + call)))
            if len(out["fail"]) > 3:
                break
    out["skipped"] = skipped
    return out


def falsify(chk):
    (_, status, size), = pipes.parallel([("lengths", lengths, ())])
    if status != "ok":
        # the search for the last line already failed: run the plain cases
        size = {(s, o): (900, 200) for s in ("none", "valid", "corrupt", "previous", "torn-previous", "leftovers") for o in (False, True)}
    step = 1
    jobs = []
    for (s, over), (lines, calls) in size.items():
        jobs += [("crash points", "crash(%r, %r, %d)" % (s, over, k)) for k in range(0, lines + 1, step)]
        for forever in (False, True):
            jobs += [("I/O errors", "fault(%r, %r, %d, %r)" % (s, over, k, forever)) for k in range(calls + 1)]
    for s in ("none", "valid", "corrupt", "previous", "leftovers"):
        jobs += [("full disk", "full_disk(%r, %d)" % (s, n)) for n in list(range(0, 400, 37)) + list(range(400, 1400, 53))]
    jobs += [("repeated crashes", "repeated(%r)" % ("%d/%d" % (common.SEED, i))) for i in range(600 if common.THOROUGH else 80)]
    common.rng("C11").shuffle(jobs)
    chk.extra["crash_points"] = {"%s/%s" % (s, "overwrite" if o else "keep"): {"lines": a, "calls": b} for (s, o), (a, b) in size.items()}
    for name, status, value in pipes.parallel([(i, work, (jobs[i::8],)) for i in range(8)]):
        if status != "ok":
            chk.obligation("runs", False, "run")
            chk.fail_obligation("crash runs", value)
            continue
        chk.extra["skipped_for_time"] = chk.extra.get("skipped_for_time", 0) + value["skipped"]
        for x in value["tried"]:
            chk.tried(x, x)
        for f in value["fail"]:
            chk.fail_input(*f)


def check():
    chk = Check("C11", "exploration")
    chk.rule = "every line of the cache code as a crash point and every file-system call as an error point, for six initial cache states; then load and reconstruct"
    falsify(chk)
    return chk
