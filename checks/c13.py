"""C13: bundles are built and changed only under the key's lock."""
from lib import cachekit, common, proof, replay
from lib.common import Check
from checks import c08
from contracts import locking

ORACLE = '''
import errno
import fcntl
import signal
import threading
import time

def is_held(lock_path):
    """Is the exclusive lock held?  (probed with an own descriptor)"""
    try:
        fd = os.open(lock_path, os.O_RDWR)
    except FileNotFoundError:
        return False
    try:
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except BlockingIOError:
            return True
        return False
    finally:
        os.close(fd)

def watcher(b):
    def watch(event, path):
        if path == str(b.lock_path):
            return
        if not path.startswith(str(b.parent) + "/"):
            return
        assert is_held(b.lock_path), "%s of %s without the lock" % (event, path)
    return watch

def held_only(seed, k=None):
    """Every change below the key happens with the lock held; afterwards the
    lock is free and no descriptor is left, whatever failed."""
    import random, uuid
    rnd = random.Random(seed)
    with scratch() as top:
        cache = top + "/c"
        b = bundle(cache)
        state = rnd.choice(["none", "valid", "corrupt", "previous", "tmp"])
        if state != "none":
            make(cache)
        hidden = str(b.parent) + "/." + b.bundle_digest
        if state == "corrupt":
            with open(b.tagger_path, "ab") as f:
                f.write(b"x")
        elif state == "previous":
            os.rename(b.path, hidden + ".previous-" + uuid.uuid4().hex)
        elif state == "tmp":
            os.mkdir(hidden + ".tmp-x")
            with open(hidden + ".tmp-x/tagger.fst", "wb") as f:
                f.write(b"part")
        over = rnd.random() < 0.6
        before = open_fds()
        n = [0]

        class Boom(Exception):
            pass

        def log():
            assert is_held(b.lock_path), "the grammar is built without the lock"
            if k is not None and k == 0:
                raise Boom()

        def count(event, path):
            plain(event, path)
            n[0] += 1
            if k is not None and n[0] == k:
                raise (OSError(errno.EIO, "injected") if seed % 2 else KeyboardInterrupt())
        plain = watcher(b)
        STATE["watch"] = count
        try:
            make(cache, "T2", "V2", overwrite=over, log=log)
        except (Boom, OSError, RuntimeError, KeyboardInterrupt) as e:
            assert k is not None, ("failed without a fault", repr(e))
        finally:
            STATE["watch"] = None
        assert not os.path.exists(b.lock_path) or not is_held(b.lock_path), "the lock is still held"
        assert open_fds() == before, ("descriptors leaked", {x: y for x, y in open_fds().items() if x not in before})

def body_errors():
    """The lock is released whatever leaves the locked region."""
    with scratch() as top:
        b = bundle(top + "/c")
        before = open_fds()
        for error in (ValueError("v"), OSError(5, "o"), KeyboardInterrupt(), SystemExit(3), BlockingIOError(11, "b"), GeneratorExit(), StopIteration(1), MemoryError()):
            try:
                with b.lock(timeout=1):
                    assert is_held(b.lock_path), "not held inside"
                    raise error
            except BaseException as e:
                assert e is error or isinstance(e, RuntimeError) and e.__cause__ is error, ("another error came out", repr(error), repr(e))
            else:
                raise AssertionError("the error was swallowed: %r" % (error,))
            assert not is_held(b.lock_path), ("still held after", repr(error))
            assert open_fds() == before, ("descriptor leaked after", repr(error))
        for _ in range(3):
            with b.lock(timeout=0):
                assert is_held(b.lock_path)
            assert not is_held(b.lock_path)
        a, c = bundle(top + "/c", {"x": 1}), bundle(top + "/c", fingerprint="y")
        with b.lock(timeout=0), a.lock(timeout=0), c.lock(timeout=0):
            assert is_held(a.lock_path) and is_held(c.lock_path)

def outcomes(seq, final, timeout):
    """Scripted outcomes of the successive lock attempts, on a fake clock.

    seq: errno values of busy attempts; final: 'ok', an errno or 'busy'."""
    import tn.cache as c
    with scratch() as top:
        b = bundle(top + "/c")
        now, sleeps, attempts, entered = [1000.0], [], [0], [False]
        real = fcntl.flock, time.monotonic, time.sleep, time.time
        start = now[0]

        def flock(fd, op):
            if op & fcntl.LOCK_UN:
                return real[0](fd, op)
            i = attempts[0]
            attempts[0] += 1
            assert attempts[0] < 100000, "the lock is polled without waiting"
            if i < len(seq):
                raise OSError(seq[i], "injected")
            if final == "ok":
                return real[0](fd, op)
            raise OSError(errno.EAGAIN if final == "busy" else final, "injected")

        def sleep(s):
            assert s >= 0, s
            sleeps.append(s)
            now[0] += max(s, 1e-4)
        before = open_fds()
        fcntl.flock, time.monotonic, time.sleep = flock, lambda: now[0], sleep
        error = None
        try:
            with b.lock(timeout=timeout):
                entered[0] = True
        except Exception as e:
            error = e
        finally:
            fcntl.flock, time.monotonic, time.sleep = real[:3]
        assert open_fds() == before, "descriptor leaked"
        assert not is_held(b.lock_path), "lock leaked"
        waited = now[0] - start
        assert waited <= timeout + 0.1, ("waited past the deadline", waited, timeout)
        busy = (errno.EACCES, errno.EAGAIN, errno.EDEADLK)
        bad = [e for e in seq if e not in busy]
        if final == "busy" and not bad or isinstance(error, c.CacheLockTimeout):
            assert isinstance(error, c.CacheLockTimeout), ("no documented timeout", repr(error))
            assert not entered[0] and error.path == b.lock_path and error.timeout == timeout, error
            assert waited >= timeout - 1e-6, ("gave up before the deadline", waited, timeout)
        elif bad or final not in ("ok", "busy"):
            assert isinstance(error, c.CacheError) and not entered[0], ("a failing lock", repr(error))
        else:
            assert error is None and entered[0], ("a free lock was not taken", repr(error))

def diagnostics(payload):
    """A waiting lock times out as documented whatever the lock file holds."""
    import tn.cache as c
    with scratch() as top:
        b = bundle(top + "/c")
        with b.lock():
            pass
        with open(b.lock_path, "wb") as f:
            f.write(b"\\0" + payload)
        fd = os.open(b.lock_path, os.O_RDWR)
        fcntl.flock(fd, fcntl.LOCK_EX)
        try:
            with b.lock(timeout=0):
                raise AssertionError("two holders")
        except c.CacheLockTimeout:
            pass
        finally:
            os.close(fd)

def real_wait(hold, timeout):
    """A second holder in another process."""
    import tn.cache as c
    with scratch() as top:
        b = bundle(top + "/c")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with b.lock(timeout=5):
                    os.write(w, b"x")
                    time.sleep(hold)
            finally:
                os._exit(0)
        try:
            os.read(r, 1)
            t0 = time.monotonic()
            try:
                with b.lock(timeout=timeout):
                    got = "locked"
            except c.CacheLockTimeout:
                got = "timeout"
            spent = time.monotonic() - t0
        finally:
            os.close(r); os.close(w)
            os.waitpid(pid, 0)
        if timeout > hold + 1:
            assert got == "locked", got
        elif timeout < hold - 1:
            assert got == "timeout" and timeout - 0.01 <= spent <= timeout + 0.8, (got, spent)
        with b.lock(timeout=0):
            pass

def rejected():
    """Invalid timeouts never enter the region and leave nothing behind."""
    import tn.cache as c
    with scratch() as top:
        b = bundle(top + "/c")
        before = open_fds()
        for bad in (float("nan"), float("inf"), -1, -0.001, -float("inf"), "nan", "-5", "x"):
            try:
                with b.lock(timeout=bad):
                    raise AssertionError("timeout %r was accepted" % (bad,))
            except ValueError:
                pass
        for bad in ("nan", "inf", "-1", "", "x", "1s", "-inf", "1e999", "None"):
            os.environ[c.LOCK_TIMEOUT_ENV] = bad
            try:
                with b.lock():
                    raise AssertionError("timeout %r was accepted from the environment" % (bad,))
            except ValueError:
                pass
            finally:
                del os.environ[c.LOCK_TIMEOUT_ENV]
        assert open_fds() == before, "descriptor leaked"
        for good in ("0", "1", "2.5", "1e1"):
            os.environ[c.LOCK_TIMEOUT_ENV] = good
            try:
                with b.lock():
                    assert is_held(b.lock_path)
            finally:
                del os.environ[c.LOCK_TIMEOUT_ENV]
        os.environ[c.LOCK_TIMEOUT_ENV] = "0.2"
        try:
            with b.lock(timeout=1):
                t0 = time.monotonic()
                try:
                    with b.lock():
                        raise AssertionError("two holders")
                except c.CacheLockTimeout as e:
                    assert e.timeout == 0.2 and time.monotonic() - t0 < 2
        finally:
            del os.environ[c.LOCK_TIMEOUT_ENV]

def at_once(count, state, overwrite):
    """Concurrent constructions build once and agree."""
    with scratch() as top:
        cache = top + "/c"
        b = bundle(cache)
        if state == "corrupt":
            make(cache, "T0", "V0")
            with open(b.verbalizer_path, "ab") as f:
                f.write(b"x")
        go = top + "/go"
        os.mkdir(go)
        pids = []
        for i in range(count):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    while not os.path.exists(go + "/now"):
                        time.sleep(0.001)

                    def log():
                        assert is_held(b.lock_path)
                        with open(top + "/built", "ab") as f:
                            f.write(b"%d\\n" % i)
                        time.sleep(0.15)
                    p = make(cache, "T", "V", log=log, overwrite=overwrite)
                    with open(top + "/got-%d" % i, "w") as f:
                        f.write(repr(held(p)))
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        time.sleep(0.1)
        os.mkdir(go + "/now")
        codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
        assert codes == [0] * count, codes
        with open(top + "/built") as f:
            built = len(f.readlines())
        for i in range(count):
            with open(top + "/got-%d" % i) as f:
                assert f.read() == repr(("T", "V")), i
        assert built == (count if overwrite else 1), ("built %d times" % built)

def recheck():
    """The bundle appears while the processor waits for the lock."""
    with scratch() as top:
        cache = top + "/c"
        b = bundle(cache)
        real = fcntl.flock
        state = []

        def flock(fd, op):
            # another builder finishes right before the lock is granted
            if op & fcntl.LOCK_EX and not state:
                state.append(1)
                raise BlockingIOError(errno.EAGAIN, "busy")
            if op & fcntl.LOCK_EX and len(state) == 1:
                state.append(2)
                code, out = in_child(lambda: make(cache, "T1", "V1").built)
                assert (code, out) == (0, 1), (code, out)
            return real(fd, op)
        fcntl.flock = flock
        try:
            p = make(cache, "T2", "V2")
        finally:
            fcntl.flock = real
        assert p.built == 0 and held(p) == ("T1", "V1"), ("built again after waiting", p.built, held(p))
'''


def work(part, parts):
    out = {"tried": [], "fail": []}
    scope = dict(vars(cachekit), print=lambda *a: None)
    exec(ORACLE, scope)
    import errno
    rng = common.rng("C13")
    jobs = [("errors inside the locked region", "body_errors()"), ("invalid timeouts", "rejected()"), ("re-check after waiting", "recheck()")]
    jobs += [("changes only under the lock", "held_only(%d, %r)" % (i, k)) for i in range(30) for k in [None] + list(range(0, 20))]
    payloads = [b"", b"x", b"{}", b"[]", b"\xff\xfe", b"[" * 60000, b'{"a":' * 10000, b"1" * 60000, b"{" * 70000, b"\x00" * 100, b'{"a":1}', b"null", b'"\\ud800"', b'{"a":"\\ud800"}']
    jobs += [("owner diagnostics", "diagnostics(%r)" % (x,)) for x in payloads]
    B = [errno.EACCES, errno.EAGAIN, errno.EDEADLK]
    for i in range(400):
        seq = [rng.choice(B) for _ in range(rng.choice([0, 1, 2, 5, 30]))]
        if rng.random() < 0.15:
            seq.insert(rng.randint(0, len(seq)), rng.choice([errno.EIO, errno.EBADF, errno.ENOLCK, errno.EINVAL]))
        jobs.append(("lock outcomes", "outcomes(%r, %r, %r)" % (seq, rng.choice(["ok", "ok", "busy", errno.EIO, errno.ENOLCK]), rng.choice([0, 0.0, 0.01, 0.04, 0.1, 1, 3, 600]))))
    jobs += [("waiting for another process", "real_wait(%r, %r)" % a) for a in [(0.4, 5), (2.2, 0.3), (2.2, 0), (0, 5)]]
    jobs += [("concurrent constructions", "at_once(%d, %r, %r)" % a) for a in [(6, "none", False), (4, "corrupt", False), (3, "none", True), (8, "none", False)]]
    for name, call in jobs[part::parts]:
        out["tried"].append(call)
        try:
            exec(call, scope)
        except BaseException as e:
            out["fail"].append((name, "%s: %r" % (call, e), replay.with_module(cachekit, ORACLE + "\n" + call)))
            if len(out["fail"]) > 3:
                break
    return out


def check():
    chk = Check("C13", "proof",
                trusted=["flock: exclusive among processes, released by unlocking or by closing the descriptor; EACCES, EAGAIN, EDEADLK and BlockingIOError mean busy",
                         "time.monotonic does not decrease and sleep(d) lasts at least d; reals for seconds",
                         "os, json, uuid and platform calls: any result, any documented error (contracts/osworld.py)"],
                assumptions=["POSIX: the msvcrt branches (os.name == 'nt') are not executed here",
                             "the bundle's methods change only their key's directory (C11, C12)",
                             "termination of a wait is counted in whole 0.05 s steps: sleep(d) advances the clock by d"])
    chk.rule = "constructions with every change probed for the lock, faults at every change, scripted outcomes of every lock attempt on a fake clock, concurrent processes"
    proof.prove(chk, "C13", locking.prove, 200)
    c08.falsify(chk, work)
    return chk
