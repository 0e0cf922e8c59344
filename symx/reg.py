import contextlib
import os

from .core import Violation, _CTX


class Harness:
    def __init__(self, fn, name, quick, thorough, labels, bounds, stubs):
        self.fn = fn
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.labels = labels
        self.bounds = bounds
        self.stubs = stubs

    def cases(self, tier):
        ps = self.thorough if tier == 'thorough' and self.thorough is not None else self.quick
        return ps


HARNESSES = {}  # property -> [Harness]


def harness(prop, name=None, quick=({},), thorough=None, labels=(), bounds='', stubs=''):
    """register fn(ctx) for property `prop`; quick/thorough: tuples of parameter dicts."""

    def deco(fn):
        h = Harness(fn, name or fn.__name__, tuple(quick),
                    tuple(thorough) if thorough is not None else None,
                    tuple(labels), bounds or (fn.__doc__ or '').strip(), stubs)
        HARNESSES.setdefault(prop, []).append(h)
        return fn

    return deco


@contextlib.contextmanager
def raises_nothing(ctx, what):
    """an exception out of the code under check is itself the violation"""
    try:
        yield
    except Exception as e:
        if os.environ.get('SYMX_TRACE'):
            raise
        ctx.fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}')


@contextlib.contextmanager
def expect_raises(ctx, what, *types):
    try:
        yield
    except types:
        return
    except Exception as e:
        ctx.fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}')
    ctx.fail(f'{what}: raised nothing')


FINDINGS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')


def findings(prop):
    """keys and descriptions of findings that are recorded, and not repaired"""
    out = {}
    with open(FINDINGS) as f:
        for line in f:
            if line.startswith('known: property='):
                p, key, what = line[len('known: property='):].rstrip('\n').split(' ', 2)
                if p == prop:
                    out[key] = what
    return out


def known(ctx, cond, prop, key, msg):
    """a check whose failure, in this history alone, is recorded"""
    if not cond and key in findings(prop):
        ctx.reach('known:' + key)
        ctx.cut('known')
    ctx.check(cond, msg)
