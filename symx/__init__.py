from .core import (  # noqa
    And, Or, Not, Implies, Iff, Ite, Sum, Eq, SymInt, SymBool, SymReal, is_sym, sym_int,
    PathEnd, Violation, Unknown, Ctx, Concrete, cur,
)
from .reg import Harness, HARNESSES, harness, raises_nothing, expect_raises  # noqa
