"""Builds the six production pipelines from /repo's current source."""
import importlib
import multiprocessing
import os
import sys
import time
import traceback

from lib import common

SPECS = {
    "ja_itn": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
    "ja_tn": ("tn.japanese.normalizer", "Normalizer"),
    "zh_tn": ("tn.chinese.normalizer", "Normalizer"),
    "en_itn": ("itn.english.inverse_normalizer", "InverseNormalizer"),
    "zh_itn": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "en_tn": ("tn.english.normalizer", "Normalizer"),
}
ALL = ("en_tn", "zh_itn", "en_itn", "zh_tn", "ja_tn", "ja_itn")


def build(name, **options):
    module, cls = SPECS[name]
    return getattr(importlib.import_module(module), cls)(cache_dir=False, **options)


def script(name, body, **options):
    module, cls = SPECS[name]
    args = "".join(", %s=%r" % kv for kv in sorted(options.items()))
    return "from %s import %s\np = %s(cache_dir=False%s)\n%s" % (module, cls, cls, args, body)


def _child(conn, fn, args):
    try:
        result = ("ok", fn(*args))
    except BaseException:
        result = ("error", traceback.format_exc())
    conn.send(result)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def parallel(tasks, limit=8, timeout=800):
    """Runs [(key, fn, args)] in forked children; yields (key, status, value)."""
    ctx = multiprocessing.get_context("fork")
    pending = list(tasks)
    running = []
    deadline = time.time() + timeout
    while pending or running:
        while pending and len(running) < limit:
            key, fn, args = pending.pop(0)
            a, b = ctx.Pipe(False)
            sys.stdout.flush()
            p = ctx.Process(target=_child, args=(b, fn, args))
            p.start()
            b.close()
            running.append((key, p, a))
        ready = multiprocessing.connection.wait([a for _, _, a in running], timeout=1.0)
        if not ready and time.time() > deadline:
            for key, p, a in running:
                p.kill()
                yield key, "error", "time limit"
            for key, _, _ in pending:
                yield key, "error", "time limit"
            return
        for key, p, a in list(running):
            if a in ready:
                try:
                    status, value = a.recv()
                except EOFError:
                    status, value = "error", "worker ended without a result (out of memory?)"
                p.join()
                running.remove((key, p, a))
                yield key, status, value


import multiprocessing.connection  # noqa: E402
