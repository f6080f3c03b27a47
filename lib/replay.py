"""Builds replay scripts: the source of the oracle plus the failing input."""
import inspect


def with_module(module, body):
    """A script carrying the source of an oracle module and then ``body``."""
    return inspect.getsource(module) + "\n\n# ---- failing input ----\n" + body
