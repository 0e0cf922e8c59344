"""symx: a small solver-backed symbolic executor for real Python code.

The code under check is imported from /repo unmodified and *run*; the inputs a
harness gives it are `SymInt`/`SymBool`/`SymReal` proxies over z3 terms.  Where
the code branches on a proxy, the executor asks z3 which sides are feasible
under the path condition and explores every feasible one (deterministic
re-execution from the start with a recorded decision prefix).  `Ctx.check`
poses the property as a query (path condition AND NOT property); `unsat` on
every path means that the property holds for every value within the bounds that
the harness declares.  No value is sampled: inputs stay symbolic until the code
itself distinguishes them.

The same harness function runs in a second mode (`Concrete`), in which the
inputs are the plain values of a solver model and the code is the plain code:
that is the replay of a counterexample.
"""

import time
import z3
from z3 import z3core as _zc

# z3's Python layer polls the error code after every C call; a registered handler
# reports the same errors without the polling (checked at every query below).
_Z3ERR = []


def _z3_error(ctx, code):
    _Z3ERR.append(int(code))


_zc.Elementaries.Check = lambda self, ctx: None
_zc_handler = None


def _install_handler():
    global _zc_handler
    if _zc_handler is None:
        _zc_handler = _zc.Z3_set_error_handler(z3.main_ctx().ref(), _z3_error)


_INT = {i: z3.IntVal(i) for i in range(-2, 65)}


def IntVal(i):
    r = _INT.get(i)
    return z3.IntVal(i) if r is None else r


class PathEnd(BaseException):
    """The current path is over (infeasible assumption, or cut)."""


class Violation(BaseException):
    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class Unknown(BaseException):
    """The solver gave no verdict: inconclusive."""


class Diverged(BaseException):
    """Re-execution did not follow the recorded prefix (harness nondeterminism)."""


_CTX = None  # current symbolic context (one per process at a time)


def cur():
    return _CTX


_PICKLED = []  # symbolic values inside pickles, for the life of one path


def _revive(i):
    return _PICKLED[i]


# ---------------------------------------------------------------- proxies
def _i(x):
    if type(x) is SymInt:
        return x.z
    if type(x) is int:
        return IntVal(x)
    if type(x) is SymBool:
        return z3.If(x.z, IntVal(1), IntVal(0))
    if type(x) is bool:
        return IntVal(int(x))
    return None


def _num(x):
    """z3 arithmetic term of a number, or None"""
    r = _i(x)
    if r is not None:
        return r
    if type(x) is SymReal:
        return x.z
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        from fractions import Fraction

        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return None


def _wrapnum(z):
    return SymInt(z) if z.sort() == z3.IntSort() else SymReal(z)


def _is_real(a, b):
    return a.sort() == z3.RealSort() or b.sort() == z3.RealSort()


class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _CTX.branch(self.z)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.z == o.z)
        if type(o) is bool:
            return SymBool(self.z if o else z3.Not(self.z))
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymBool(_i(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.z))

    def __and__(self, o):
        z = _b(o)
        return NotImplemented if z is None else SymBool(z3.And(self.z, z))

    __rand__ = __and__

    def __or__(self, o):
        z = _b(o)
        return NotImplemented if z is None else SymBool(z3.Or(self.z, z))

    __ror__ = __or__

    def __xor__(self, o):
        z = _b(o)
        return NotImplemented if z is None else SymBool(z3.Xor(self.z, z))

    __rxor__ = __xor__

    def __invert__(self):  # NOTE: logical, for harness use
        return SymBool(z3.Not(self.z))

    def __add__(self, o):
        return SymInt(_i(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymInt(_i(self)) - o

    def __rsub__(self, o):
        return o - SymInt(_i(self))

    def __repr__(self):
        return f"<SymBool {self.z}>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _b(x):
    if type(x) is SymBool:
        return x.z
    if type(x) is bool:
        return z3.BoolVal(x)
    return None


def _cmp(name, op):
    def f(self, o):
        n = _num(o)
        if n is None:
            if isinstance(o, float):  # inf / nan
                return getattr(0.0, name)(o)
            return NotImplemented
        return SymBool(op(self.z, n))

    f.__name__ = name
    return f


def _arith(name, op, swap=False):
    def f(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = (n, self.z) if swap else (self.z, n)
        return _wrapnum(z3.simplify(op(a, b)))

    f.__name__ = name
    return f


def _toreal(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def _pyfloordiv(a, b):
    """Python floor division over Int terms (z3 div is Euclidean-like)."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b  # z3 int div: floor for positive divisor
        return (-a) / z3.IntVal(-b.as_long())
    return z3.If(b > 0, a / b, (-a) / (-b))


def _pymod(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * _pyfloordiv(a, b)


class _Num:
    __slots__ = ('z',)
    __array_ufunc__ = None  # numpy scalars defer to the reflected operation

    def __init__(self, z):
        self.z = z

    __lt__ = _cmp('__lt__', lambda a, b: a < b)
    __le__ = _cmp('__le__', lambda a, b: a <= b)
    __gt__ = _cmp('__gt__', lambda a, b: a > b)
    __ge__ = _cmp('__ge__', lambda a, b: a >= b)

    def __eq__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymBool(self.z == n)

    def __ne__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymBool(self.z != n)

    __add__ = _arith('__add__', lambda a, b: a + b)
    __radd__ = _arith('__radd__', lambda a, b: a + b, True)
    __sub__ = _arith('__sub__', lambda a, b: a - b)
    __rsub__ = _arith('__rsub__', lambda a, b: a - b, True)

    def __mul__(self, o):
        n = _num(o)
        if n is None:
            if isinstance(o, (list, tuple, str, bytes)):
                return o * int(self)
            return NotImplemented
        return _wrapnum(z3.simplify(self.z * n))

    __rmul__ = __mul__

    def _div(self, a, b):
        _CTX.nonzero(b)
        return SymReal(_toreal(a) / _toreal(b))

    def __truediv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else self._div(self.z, n)

    def __rtruediv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else self._div(n, self.z)

    def _fd(self, a, b):
        _CTX.nonzero(b)
        if _is_real(a, b):
            return SymReal(z3.ToReal(z3.ToInt(_toreal(a) / _toreal(b))))
        return SymInt(z3.simplify(_pyfloordiv(a, b)))

    def __floordiv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else self._fd(self.z, n)

    def __rfloordiv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else self._fd(n, self.z)

    def _md(self, a, b):
        _CTX.nonzero(b)
        if _is_real(a, b):
            a, b = _toreal(a), _toreal(b)
            return SymReal(a - b * z3.ToReal(z3.ToInt(a / b)))
        return SymInt(z3.simplify(_pymod(a, b)))

    def __mod__(self, o):
        n = _num(o)
        return NotImplemented if n is None else self._md(self.z, n)

    def __rmod__(self, o):
        n = _num(o)
        return NotImplemented if n is None else self._md(n, self.z)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return _wrapnum(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrapnum(z3.If(self.z >= 0, self.z, -self.z))

    def __bool__(self):
        return _CTX.branch(self.z != 0)

    def __str__(self):
        if _CTX.lazy_str:
            return f'<{self.z}>'
        return str(_CTX.concretise(self))

    def __format__(self, spec):
        if _CTX.lazy_str and not spec:
            return f'<{self.z}>'
        return format(_CTX.concretise(self), spec)

    def __hash__(self):
        if _CTX.const_hash:  # dict/set lookups fork on equality instead
            return 7
        return hash(_CTX.concretise(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        # pickling keeps the term: a pickle of a symbolic value stands for that of each value
        _PICKLED.append(self)
        return (_revive, (len(_PICKLED) - 1,))


class SymInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __int__(self):
        return _CTX.concretise(self)

    __index__ = __int__

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(_CTX.concretise(self))

    def __and__(self, o):
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __rshift__(self, o):
        return int(self) >> int(o)

    def __lshift__(self, o):
        return int(self) << int(o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    def __pow__(self, o, m=None):
        return pow(int(self), o, m)

    def __rpow__(self, o):
        return o ** int(self)

    def bit_length(self):
        return int(self).bit_length()

    @property
    def real(self):
        return self

    def __repr__(self):
        return f"<SymInt {self.z}>"


class SymReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __int__(self):
        # int() must return a real int: concretise the truncation
        return _CTX.concretise(self.__trunc__())

    def __trunc__(self):
        return SymInt(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z))

    def __round__(self, n=None):
        if n is None:
            return SymInt(z3.ToInt(self.z + z3.Q(1, 2)))
        return float(self)

    def __float__(self):
        return float(_CTX.concretise(self))

    def __repr__(self):
        return f"<SymReal {self.z}>"


class SymStr:
    """one of a fixed tuple of distinct strings; an Int term says which"""

    __slots__ = ('z', 'options')

    def __init__(self, z, options):
        self.z = z
        self.options = options

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is SymStr:
            same = [z3.And(self.z == i, o.z == o.options.index(s))
                    for i, s in enumerate(self.options) if s in o.options]
            return SymBool(z3.simplify(z3.Or(*same))) if same else False
        if type(o) is str:
            return SymBool(self.z == self.options.index(o)) if o in self.options else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.z)) if type(r) is SymBool else not r

    def now(self):
        """resolve"""
        return self.options[_CTX.concretise(SymInt(self.z))]

    def __hash__(self):
        if _CTX.const_hash:
            return 7
        return hash(self.now())

    def __bool__(self):
        return bool(Or(*[self == s for s in self.options if s]))

    def __str__(self):
        return f'<{self.z}>' if _CTX.lazy_str else self.now()

    def __format__(self, spec):
        return format(self.__str__(), spec)

    def __repr__(self):
        return f'<SymStr {self.z}>'

    def __add__(self, o):
        return self.now() + o

    def __radd__(self, o):
        return o + self.now()

    def __len__(self):
        return len(self.now())

    def __iter__(self):
        return iter(self.now())

    def __getitem__(self, k):
        return self.now()[k]

    def __contains__(self, x):
        return x in self.now()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.now(), name)


def is_sym(x):
    return type(x) in (SymInt, SymBool, SymReal)


def sym_int(x):
    """int() that keeps a symbolic number symbolic (stub for builtins.int)."""
    if type(x) is SymReal:
        return x.__trunc__()
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return SymInt(_i(x))
    return int(x)


# logic helpers usable in both modes (harness-side, non-forking)
def And(*xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif not x:
            return False
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0])


def Or(*xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif x:
            return True
    if not zs:
        return False
    return SymBool(z3.Or(*zs) if len(zs) > 1 else zs[0])


def Not(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.z))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return SymBool(_b(a if is_sym(a) else bool(a)) == _b(b if is_sym(b) else bool(b)))
    return bool(a) == bool(b)


def Ite(c, a, b):
    if type(c) is SymBool:
        if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
            return SymBool(z3.If(c.z, _b(a), _b(b)))
        za, zb = _num(a), _num(b)
        if za.sort() != zb.sort():
            za, zb = _toreal(za), _toreal(zb)
        return _wrapnum(z3.If(c.z, za, zb))
    return a if c else b


def Sum(xs):
    t = 0
    for x in xs:
        if type(x) is SymBool:
            x = SymInt(_i(x))
        elif type(x) is bool:
            x = int(x)
        t = t + x
    return t


def Eq(a, b):
    """a == b as (Sym)bool, False where types are incomparable."""
    r = a == b
    if r is NotImplemented:
        return False
    return r


# ---------------------------------------------------------------- contexts
class Stats:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.check_queries = 0
        self.unsat_checks = 0
        self.branches = 0
        self.reached = {}
        self.functions = set()
        self.samples = []
        self.unknown = 0

    def merge(self, o):
        for k in ('paths', 'cut', 'queries', 'solver_s', 'checks', 'check_queries',
                  'unsat_checks', 'branches', 'unknown'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.functions |= o.functions
        if len(self.samples) < 6:
            self.samples.extend(o.samples[: 6 - len(self.samples)])


class Ctx:
    symbolic = True

    def __init__(self, params, timeout_ms=20000):
        _install_handler()
        self.params = params
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stats = Stats()
        self.vars = {}

    # ---- path lifecycle
    def start(self, prefix):
        global _CTX
        _CTX = self
        del _PICKLED[:]
        self.prefix = prefix
        self.trace = []  # decisions taken
        self.alts = []  # alternative prefixes discovered on this path
        self.model = None
        self.depth = 0
        self.notes = []
        self.names = {}
        self.solver.push()
        self.used = {}
        self.lazy_str = False
        self.const_hash = False
        self.over = None

    def end(self, e):
        """the path ends with e, even if the code under check replaces or swallows the exception"""
        self.over = self.over or e
        raise self.over

    def finish(self):
        global _CTX
        self.solver.pop()
        _CTX = None

    # ---- variables
    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        self.used[name] = ('int', v)
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.used[name] = ('bool', v)
        return SymBool(v)

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Real(name)
        self.used[name] = ('real', v)
        if lo is not None:
            self._add(v >= (lo.z if is_sym(lo) else lo))
        if hi is not None:
            self._add(v <= (hi.z if is_sym(hi) else hi))
        return SymReal(v)

    def enum(self, name, options):
        """a string, one of options; stays symbolic until the code compares it"""
        options = tuple(options)
        return SymStr(self.int(name, 0, len(options) - 1).z, options)

    def choose(self, name, options):
        """a fresh, unconstrained index resolved now: every option is feasible, so all of
        them are explored without asking the solver"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._pick(self._name(name), len(options))]

    def _pick(self, name, n):
        self.stats.branches += 1
        d = self.depth
        self.depth += 1
        if d < len(self.prefix):
            v = self.prefix[d]
            if type(v) is not int:
                raise Diverged(f'branch {d}: expected a choice, have {v!r}')
            if v >= n:
                raise Diverged(f'branch {d}: choice {v} of {n}')
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.trace + [k])
        self.trace.append(v)
        self.used[name] = ('choice', v)
        return v

    def flip(self, name):
        """a fresh boolean resolved now"""
        return bool(self._pick(self._name(name), 2))

    # ---- solver
    def _add(self, z):
        self.solver.add(z)
        if self.model is not None:
            if not z3.is_true(self.model.eval(z, model_completion=True)):
                self.model = None

    def _addtrue(self, z):
        """add a constraint that the current model is known to satisfy"""
        self.solver.add(z)

    def _query(self, *zs):
        t = time.perf_counter()
        r = self.solver.check(*zs)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if _Z3ERR:
            raise Unknown(f'z3 error codes {_Z3ERR[:3]}')
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unknown(self.solver.reason_unknown())
        if r == z3.sat:
            self.lastmodel = self.solver.model()
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._query():
                raise PathEnd('infeasible')
            self.model = self.lastmodel
        return self.model

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        self.stats.branches += 1
        d = self.depth
        self.depth += 1
        if d < len(self.prefix):
            v = self.prefix[d]
            if type(v) is not bool:
                raise Diverged(f'branch {d}: expected a branch, have {v!r}')
            self.trace.append(v)
            self._add(z if v else z3.Not(z))
            return v
        m = self._ensure_model()
        v = z3.is_true(m.eval(z, model_completion=True))
        # the model's side is feasible; is the other one?
        if self._query(z3.Not(z) if v else z):
            self.alts.append(self.trace + [not v])
            self._addtrue(z if v else z3.Not(z))
        # (else: implied by the path condition)
        self.trace.append(v)
        return v

    def concretise(self, x):
        """resolve x to one of its feasible values, exploring all of them."""
        z = z3.simplify(x.z)
        if z3.is_int_value(z):
            return z.as_long()
        if z3.is_rational_value(z):
            return _pyval(z)
        if z3.is_true(z) or z3.is_false(z):
            return z3.is_true(z)
        self.stats.branches += 1
        d = self.depth
        self.depth += 1
        if d < len(self.prefix):
            v = self.prefix[d]
            if type(v) is not tuple:
                raise Diverged(f'branch {d}: expected a value, have {v!r}')
            if v[0] == '=':
                self.trace.append(v)
                val = z3.IntVal(v[1]) if z.sort() == z3.IntSort() else z3.RealVal(v[1])
                self._add(z == val)
                return _pyval(val)
            excl = list(v[1])
        else:
            excl = []
        for e in excl:
            self._add(z != (z3.IntVal(e) if z.sort() == z3.IntSort() else z3.RealVal(e)))
        m = self._ensure_model()
        val = m.eval(z, model_completion=True)
        key = val.as_long() if z3.is_int_value(val) else val.as_string()
        if self._query(z != val):
            self.alts.append(self.trace + [('!', tuple(excl) + (key,))])
            self._addtrue(z == val)
        self.trace.append(('=', key))
        return _pyval(val)

    def nonzero(self, b):
        if z3.is_int_value(b) or z3.is_rational_value(b):
            if b.as_fraction() == 0 if z3.is_rational_value(b) else b.as_long() == 0:
                raise ZeroDivisionError('division by zero')
            return
        if self.branch(b == 0):
            raise ZeroDivisionError('division by zero')

    # ---- property interface
    def assume(self, c):
        if self.over:
            raise self.over
        if type(c) is SymBool:
            z = z3.simplify(c.z)
            if z3.is_true(z):
                return
            self._add(z)
            if self.model is None and self.depth >= len(self.prefix):
                self._ensure_model()
            return
        if not c:
            self.end(PathEnd('assume'))

    def cut(self, why='cut'):
        self.end(PathEnd(why))

    def check(self, c, msg):
        if self.over:
            raise self.over
        self.stats.checks += 1
        if type(c) is SymBool:
            z = z3.simplify(c.z)
            if z3.is_true(z):
                return
            self.stats.check_queries += 1
            if self._query(z3.Not(z)):
                self.end(Violation(msg, self.extract(self.lastmodel)))
            self.stats.unsat_checks += 1
            self._add(z)
            return
        if c:
            return
        # concretely false on this path: it is feasible iff pc is
        if not self._query():
            self.end(PathEnd('infeasible'))
        self.end(Violation(msg, self.extract(self.lastmodel)))

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def note(self, s):
        pass

    def extract(self, model):
        out = {}
        for name, (kind, v) in self.used.items():
            if kind == 'choice':
                out[name] = v
                continue
            val = model.eval(v, model_completion=True)
            if kind == 'int':
                out[name] = val.as_long()
            elif kind == 'bool':
                out[name] = z3.is_true(val)
            else:
                out[name] = val.as_fraction().__str__() if z3.is_rational_value(val) else str(
                    val.approx(20).as_fraction()
                )
                out[name] = {'real': out[name]}
        return out


def _pyval(val):
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        f = val.as_fraction()
        return float(f)
    raise Unknown(f'no concrete value for {val}')


class ReplayMismatch(Exception):
    pass


class Runaway(BaseException):
    """a single path runs for longer than any path does"""


PATH_SECONDS = 90


def _alarm(signum, frame):
    raise Runaway()


def escaped(e, repo):
    """what to report of an exception that came out of a harness, if it came out of the code
    under check (else None)"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(repo):
            last = f'{f.co_filename[len(repo):]}:{f.co_qualname}'
        tb = tb.tb_next
    if last is None:
        return None
    if isinstance(e, Runaway):
        return f'{last} does not return'
    return f'{last} raised {type(e).__name__}: {str(e)[:200]}'


def guarded(fn, ctx):
    """fn(ctx) under a time limit"""
    import signal

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
    try:
        try:
            fn(ctx)
        except Runaway:
            raise
        except BaseException:
            if ctx.over:
                raise ctx.over from None
            raise
        if ctx.over:
            raise ctx.over
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def explore(fn, params, prefixes, budget_paths, budget_s, profile=0, repo='/repo/'):
    """Explore the subtrees below `prefixes`; return (stats, leftover, outcome)"""
    import sys

    ctx = Ctx(params)
    stack = list(prefixes)
    t0 = time.perf_counter()
    n = 0
    while stack:
        if n >= budget_paths or (time.perf_counter() - t0) > budget_s:
            break
        prefix = stack.pop()
        ctx.start(prefix)
        prof = profile > 0 and n < profile
        if prof:
            funcs = ctx.stats.functions

            def tracer(frame, event, arg, funcs=funcs):
                if event == 'call':
                    co = frame.f_code
                    if co.co_filename.startswith(repo) and co.co_flags & 2:  # functions, not modules or classes
                        funcs.add(co.co_filename[len(repo):] + ':' + co.co_qualname)

            sys.setprofile(tracer)
        out = None
        sample = None
        try:
            try:
                guarded(fn, ctx)
            finally:
                if prof:
                    sys.setprofile(None)
            if ctx.depth < len(prefix):
                raise Diverged('path ended inside its prefix')
            if len(ctx.stats.samples) < 2:
                try:
                    sample = ctx.extract(ctx._ensure_model())
                except PathEnd:
                    sample = None
            ctx.stats.paths += 1
        except PathEnd as e:
            if e.args[0] in ('infeasible', 'assume'):
                pass
            ctx.stats.cut += 1
        except Violation as v:
            out = ('violation', v.msg, v.model)
        except (Unknown, Diverged) as e:
            out = ('inconclusive', f'{type(e).__name__}: {e}', None)
        except (Exception, Runaway, SystemExit) as e:  # an error of the harness, or of the code on this path
            import traceback

            tb = traceback.format_exc()
            what = escaped(e, repo)
            try:
                model = ctx.extract(ctx._ensure_model())
                out = ('violation', what, model) if what else ('error', tb, model)
            except (PathEnd, Unknown):
                out = None
        finally:
            ctx.finish()
        if sample is not None:
            ctx.stats.samples.append(sample)
        stack.extend(ctx.alts)
        n += 1
        if out:
            return ctx.stats, stack, out
    return ctx.stats, stack, None


# ---------------------------------------------------------------- replay mode
class Concrete:
    """The same interface over the plain values of one model."""

    symbolic = False

    def __init__(self, params, model):
        self.params = params
        self.values = model
        self.names = {}
        self.stats = Stats()
        self.over = None

    def _get(self, name, default):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        name = name if k == 0 else f"{name}#{k}"
        v = self.values.get(name, default)
        if isinstance(v, dict):
            from fractions import Fraction

            v = float(Fraction(v['real']))
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else (hi if hi is not None else 0))

    def bool(self, name):
        return self._get(name, False)

    def real(self, name, lo=None, hi=None):
        return self._get(name, float(lo) if lo is not None else 0.0)

    def enum(self, name, options):
        return tuple(options)[self.int(name, 0, len(options) - 1)]

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def flip(self, name):
        return bool(self.int(name, 0, 1))

    def concretise(self, x):
        return x

    end = Ctx.end

    def assume(self, c):
        if self.over:
            raise self.over
        if not c:
            self.end(PathEnd('assume'))

    def cut(self, why='cut'):
        self.end(PathEnd(why))

    def check(self, c, msg):
        if self.over:
            raise self.over
        if not c:
            self.end(Violation(msg, self.values))

    def fail(self, msg):
        self.end(Violation(msg, self.values))

    def reach(self, label):
        pass

    def note(self, s):
        print('   ', s)
