"""SymSet: a set over a fixed universe whose membership bits are z3 terms."""
import z3

from .core import SymBool, SymInt, _b, is_sym


class SymSet:
    """drop-in for the builtin `set` in a module loaded with load_shadowed()"""

    universe = ()

    def __init__(self, items=()):
        self.bits = {}
        if isinstance(items, SymSet):
            self.bits = dict(items.bits)
        else:
            for i in items:
                self.bits[i] = z3.BoolVal(True)

    # -- helpers
    @staticmethod
    def _bits(o):
        if isinstance(o, SymSet):
            return o.bits
        return {i: z3.BoolVal(True) for i in o}

    def _mk(self, bits):
        r = SymSet()
        r.bits = bits
        return r

    def _get(self, k):
        return self.bits.get(k, z3.BoolVal(False))

    def _keys(self, *os):
        ks = list(self.bits)
        for o in os:
            for k in o:
                if k not in ks:
                    ks.append(k)
        return ks

    def _bin(self, o, f):
        ob = self._bits(o)
        F = z3.BoolVal(False)
        return self._mk({k: z3.simplify(f(self._get(k), ob.get(k, F))) for k in self._keys(ob)})

    # -- set algebra
    def union(self, *os):
        r = self._mk(dict(self.bits))
        for o in os:
            r = r._bin(o, z3.Or)
        return r

    def intersection(self, *os):
        r = self._mk(dict(self.bits))
        for o in os:
            r = r._bin(o, z3.And)
        return r

    def difference(self, *os):
        r = self._mk(dict(self.bits))
        for o in os:
            r = r._bin(o, lambda a, b: z3.And(a, z3.Not(b)))
        return r

    def symmetric_difference(self, o):
        return self._bin(o, z3.Xor)

    __or__ = __ror__ = lambda s, o: s.union(o)
    __and__ = __rand__ = lambda s, o: s.intersection(o)
    __sub__ = lambda s, o: s.difference(o)
    __rsub__ = lambda s, o: SymSet(o).difference(s)
    __xor__ = lambda s, o: s.symmetric_difference(o)

    def update(self, *os):
        self.bits = self.union(*os).bits

    def difference_update(self, *os):
        self.bits = self.difference(*os).bits

    def intersection_update(self, *os):
        self.bits = self.intersection(*os).bits

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def copy(self):
        return self._mk(dict(self.bits))

    def add(self, k):
        self.bits[k] = z3.BoolVal(True)

    def discard(self, k):
        self.bits.pop(k, None)

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.discard(k)

    def clear(self):
        self.bits = {}

    def issubset(self, o):
        ob = self._bits(o)
        F = z3.BoolVal(False)
        return SymBool(z3.And(*[z3.Implies(v, ob.get(k, F)) for k, v in self.bits.items()], z3.BoolVal(True)))

    def issuperset(self, o):
        return SymSet(o).issubset(self)

    def isdisjoint(self, o):
        ob = self._bits(o)
        return SymBool(z3.Not(z3.Or(*[z3.And(v, ob[k]) for k, v in self.bits.items() if k in ob], z3.BoolVal(False))))

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) & (~self.__eq__(o))

    def __gt__(self, o):
        return SymSet(o) < self

    def __eq__(self, o):
        try:
            ob = self._bits(o)
        except TypeError:
            return False
        F = z3.BoolVal(False)
        return SymBool(z3.And(*[self._get(k) == ob.get(k, F) for k in self._keys(ob)], z3.BoolVal(True)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if is_sym(r) else not r

    __hash__ = None

    def has(self, k):
        return SymBool(self._get(k))

    def __contains__(self, k):
        return bool(SymBool(self._get(k)))

    def __iter__(self):
        for k in list(self.bits):
            if k in self:
                yield k

    def size(self):
        return SymInt(z3.Sum([z3.If(v, z3.IntVal(1), z3.IntVal(0)) for v in self.bits.values()] + [z3.IntVal(0)]))

    def __len__(self):
        return int(self.size())

    def __bool__(self):
        return bool(SymBool(z3.Or(*self.bits.values(), z3.BoolVal(False))))

    def __repr__(self):
        return f'SymSet({self.bits})'


def sym_len(x):
    if isinstance(x, SymSet):
        return x.size()
    n = getattr(x, '__symlen__', None)
    if n is not None:
        return n()
    return len(x)


def load_shadowed(modname, shadow, alias):
    """execute the current source of `modname` with some builtins replaced in its globals"""
    import importlib.util
    import sys

    spec = importlib.util.find_spec(modname)
    new = importlib.util.spec_from_file_location(alias, spec.origin)
    mod = importlib.util.module_from_spec(new)
    mod.__package__ = modname.rpartition('.')[0]
    mod.__dict__.update(shadow)
    sys.modules[alias] = mod
    src = open(spec.origin).read()
    code = compile(src, spec.origin, 'exec')
    mod.__dict__['__name__'] = alias
    mod.__dict__['__file__'] = spec.origin
    exec(code, mod.__dict__)
    return mod
