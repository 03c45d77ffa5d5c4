"""Specification side of the symbolic front-end proofs: specifications are ordinary Python
functions that branch on SMT conditions; every feasible branch is explored under the path
condition of the code path being checked."""
import z3
from mirsym import *


class V:
    """expected enum variant or struct, fields by position or by name"""
    def __init__(self, name, *pos, **kw): self.name, self.pos, self.kw = name, pos, kw
    def __repr__(self): return f"{self.name}{self.pos or ''}{self.kw or ''}"


class NZ:
    def __init__(self, t): self.t = t
    def __repr__(self): return f"NZ({self.t})"


class Abs:
    """expected result of a contracted callee, identified by its kind and argument text"""
    def __init__(self, kind, t): self.kind, self.t = kind, t
    def __repr__(self): return f"{self.kind}({self.t})"


ANY = "any"     # no requirement on the value (absence of panics is still required)


class Text:
    def __init__(self, t): self.t = t if not isinstance(t, str) else strval(t)
    def __repr__(self): return f"text {self.t}"


class Run:
    def __init__(self, ex, pc, prefix):
        self.ex, self.pc, self.prefix, self.i, self.alts = ex, pc, prefix, 0, []
        self.conds, self.label = [], None
    def branch(self, c):
        if self.i < len(self.prefix):
            b = self.prefix[self.i]
        else:
            t = self.ex.feasible(self.pc + self.conds, c)
            f = self.ex.feasible(self.pc + self.conds, z3.Not(c))
            if not t and not f:
                raise Dead()
            b = t
            if t and f:
                self.alts.append(self.prefix[:self.i] + [False])
            self.prefix = self.prefix + [b]
        self.i += 1
        self.conds.append(c if b else z3.Not(c))
        return b


class Dead(Exception):
    pass


def explore(ex, pc, fn):
    """-> [(conditions, expected)]"""
    work, out = [[]], []
    while work:
        r = Run(ex, pc, work.pop())
        try:
            e = fn(r)
        except Dead:
            continue
        finally:
            pass
        work += r.alts
        out.append((r.conds, e))
    return out


def same(ex, st, v, e):
    """SMT formula: value v equals expectation e"""
    if e is ANY: return z3.BoolVal(True)
    if v is UNDEF: raise Unsupported("undefined result")
    if isinstance(e, V):
        if isinstance(v, Ref): v = ex.load(st, v)
        if not isinstance(v, Adt):
            if isinstance(v, Opq): return z3.BoolVal(False)
            raise Unsupported(f"cannot compare {type(v).__name__} with {e.name}")
        var = ex.T[v.ty]["variants"][v.var]
        if var["name"] != e.name: return z3.BoolVal(False)
        names = [f[0] for f in var["fields"]]
        fs = []
        for i, x in enumerate(e.pos): fs.append(same(ex, st, v.v[i], x))
        for n, x in e.kw.items():
            if n not in names: raise Unsupported(f"no field {n} in {e.name}")
            fs.append(same(ex, st, v.v[names.index(n)], x))
        return z3.And(fs) if fs else z3.BoolVal(True)
    if isinstance(e, NZ):
        if isinstance(v, Opq) and v.kind == "nz": return v.d[0] == e.t
        raise Unsupported("non-zero value expected")
    if isinstance(e, Abs):
        while isinstance(v, Ref): v = ex.load(st, v)
        if isinstance(v, Opq) and v.kind == e.kind: return v.d[0] == e.t
        return z3.BoolVal(False)
    if isinstance(e, Text):
        while isinstance(v, Ref): v = ex.load(st, v)
        if isinstance(v, (Str, OStr)): return v.t == e.t
        if isinstance(v, Adt) and len(v.v) == 1 and isinstance(v.v[0], (Str, OStr)): return v.v[0].t == e.t
        raise Unsupported("text expected")
    if isinstance(v, Ref): v = ex.load(st, v)
    if isinstance(v, z3.ExprRef):
        if isinstance(e, bool): e = z3.BoolVal(e)
        if isinstance(e, int): e = z3.BitVecVal(e, v.size())
        if v.sort() != e.sort(): raise Unsupported("sort mismatch")
        return v == e
    raise Unsupported("comparison")


# helpers shared by specifications
def split_once(s, sep):
    i = z3.IndexOf(s, sep, 0)
    return z3.SubString(s, 0, i), z3.SubString(s, i + 1, z3.Length(s) - (i + 1))


def drop(s, n): return z3.SubString(s, n, z3.Length(s) - n)


def parses(ex, n):
    return lambda s: z3.And(s != strval(""), ex.fun(f"parses_{n}", z3.StringSort(), z3.BoolSort())(s))
def value(ex, n):
    return ex.fun(f"value_{n}", z3.StringSort(), z3.Float32() if n == "f32" else z3.BitVecSort(32))
def shown(ex, n):
    return ex.fun(f"shown_{n}", z3.Float32() if n == "f32" else z3.BitVecSort(32), z3.StringSort())


def finite(v): return z3.Not(z3.Or(z3.fpIsInf(v), z3.fpIsNaN(v)))
