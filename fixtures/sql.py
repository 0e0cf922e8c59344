"""Evaluate a WHERE clause symbolically under SQL's three-valued logic.

A value is (isnull: Sym/bool, number); a truth value is (true, unknown)."""
import re

from symx.core import And, Iff, Implies, Ite, Not, Or

TOK = re.compile(r"\s*(\(|\)|,|\?|<=|>=|!=|<>|==|=|<|>|[A-Za-z_][A-Za-z_0-9]*|\d+)")


class SQLError(Exception):
    pass


class Where:
    def __init__(self, text, args, row):
        self.toks = []
        pos = 0
        text = text.strip()
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise SQLError(f'syntax: {text[pos:]!r}')
            self.toks.append(m.group(1))
            pos = m.end()
            while pos < len(text) and text[pos].isspace():
                pos += 1
        self.i = 0
        self.args = list(args)
        self.row = row

    def peek(self, k=0):
        return self.toks[self.i + k].upper() if self.i + k < len(self.toks) else None

    def take(self, *want):
        t = self.peek()
        if t is None or want and t not in want:
            raise SQLError(f'syntax near {t!r}: expected {want}')
        self.i += 1
        return self.toks[self.i - 1]

    def run(self):
        v = self.or_()
        if self.i != len(self.toks):
            raise SQLError(f'syntax near {self.toks[self.i]!r}')
        if self.args:
            raise SQLError('too many bindings')
        return v[0]

    def or_(self):
        a = self.and_()
        while self.peek() == 'OR':
            self.take()
            b = self.and_()
            t = Or(a[0], b[0])
            a = (t, And(Not(t), Or(a[1], b[1])))
        return a

    def and_(self):
        a = self.not_()
        while self.peek() == 'AND':
            self.take()
            b = self.not_()
            f = Or(And(Not(a[0]), Not(a[1])), And(Not(b[0]), Not(b[1])))
            t = And(a[0], b[0])
            a = (t, And(Not(t), Not(f)))
        return a

    def not_(self):
        if self.peek() == 'NOT':
            self.take()
            return self.neg(self.not_())
        return self.pred()

    @staticmethod
    def neg(a):
        return (And(Not(a[0]), Not(a[1])), a[1])

    def operand(self):
        t = self.take()
        u = t.upper()
        if u == 'NULL':
            return (True, 0)
        if t == '?':
            if not self.args:
                raise SQLError('not enough bindings')
            v = self.args.pop(0)
            return (True, 0) if v is None else (False, v)
        if t.isdigit():
            return (False, int(t))
        if t in self.row:
            return self.row[t]
        raise SQLError(f'no such column: {t}')

    def pred(self):
        if self.peek() == '(':
            self.take()
            v = self.or_()
            self.take(')')
            return v
        a = self.operand()
        t = self.peek()
        if t is None or t in ('AND', 'OR', ')'):
            return (And(Not(a[0]), a[1] != 0), a[0])
        if t in ('ISNULL', 'NOTNULL'):
            self.take()
            return (a[0] if t == 'ISNULL' else Not(a[0]), False)
        if t == 'IS':
            self.take()
            no = self.peek() == 'NOT'
            if no:
                self.take()
            b = self.operand()
            same = Or(And(a[0], b[0]), And(Not(a[0]), Not(b[0]), a[1] == b[1]))
            return (Not(same) if no else same, False)
        no = t == 'NOT'
        if no:
            self.take()
            t = self.peek()
        if t == 'IN':
            self.take()
            self.take('(')
            v = (False, False)
            while self.peek() != ')':
                b = self.operand()
                u = Or(a[0], b[0])
                e = (And(Not(u), a[1] == b[1]), u)
                tt = Or(v[0], e[0])
                v = (tt, And(Not(tt), Or(v[1], e[1])))
                if self.peek() == ',':
                    self.take()
            self.take(')')
            return self.neg(v) if no else v
        op = self.take('=', '==', '!=', '<>', '<', '<=', '>', '>=')
        b = self.operand()
        u = Or(a[0], b[0])
        x, y = a[1], b[1]
        r = {'=': lambda: x == y, '==': lambda: x == y, '!=': lambda: x != y, '<>': lambda: x != y, '<': lambda: x < y,
             '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        return (And(Not(u), r), u)
