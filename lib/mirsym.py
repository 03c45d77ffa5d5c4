"""Deductive engine for the front end: symbolic execution of the monomorphic MIR of the real
functions (dumped by lib/mirdump from /repo's current source) against function contracts.

Strings are unbounded: a `str` is a term of the SMT theory of strings (code points), integers are
bit-vectors, floats are IEEE terms.  Library functions are replaced by the contracts registered in
mircontracts.py; functions of the crate are executed from their own MIR, or replaced by their
contract when the calling property lists one.  Every feasible path ends in an obligation
"path condition and specification imply the same result"; panics are obligations too.

Anything outside the supported subset raises Unsupported, which makes the property fall back to
its bounded stand-in: it never raises an alarm."""
import re, time
import z3

F32 = z3.Float32()


class Unsupported(Exception):
    pass


class Str:            # a &str
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Str({self.t})"


class OStr:           # an owned String
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"String({self.t})"


class Tup:
    __slots__ = ("v",)
    def __init__(self, v): self.v = tuple(v)
    def __repr__(self): return f"Tup{self.v}"


class Adt:
    __slots__ = ("ty", "var", "v")
    def __init__(self, ty, var, v): self.ty, self.var, self.v = ty, var, tuple(v)
    def __repr__(self): return f"Adt({self.ty},{self.var},{self.v})"


class Arr:
    __slots__ = ("v",)
    def __init__(self, v): self.v = tuple(v)
    def __repr__(self): return f"Arr{self.v}"


class Clo:
    __slots__ = ("name", "v")
    def __init__(self, name, v): self.name, self.v = name, tuple(v)


class Fn:
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty


class Ref:
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def __repr__(self): return f"Ref({self.cell},{self.path})"


class Slice:          # &[T] with a sub-range of an array place
    __slots__ = ("ref", "lo", "hi")
    def __init__(self, ref, lo, hi): self.ref, self.lo, self.hi = ref, lo, hi


class Opq:            # object of a library type, known only through contracts
    __slots__ = ("kind", "d")
    def __init__(self, kind, *d): self.kind, self.d = kind, d
    def __repr__(self): return f"Opq({self.kind},{self.d})"


UNIT = Tup(())


class Undef:          # never-initialised memory; may be copied, never branched on
    def __repr__(self): return "undef"


UNDEF = Undef()


class Frame:
    __slots__ = ("inst", "bb", "loc", "dest", "target", "post")
    def __init__(self, inst, loc, dest, target):
        self.inst, self.bb, self.loc, self.dest, self.target = inst, 0, loc, dest, target
        self.post = None
    def copy(self):
        f = Frame(self.inst, self.loc, self.dest, self.target)
        f.bb = self.bb
        f.loc = dict(self.loc)
        return f


class State:
    __slots__ = ("cells", "pc", "frames", "n", "steps")
    def __init__(self):
        self.cells, self.pc, self.frames, self.n, self.steps = {}, [], [], 0, 0
    def copy(self):
        s = State()
        s.cells, s.pc, s.frames, s.n, s.steps = dict(self.cells), list(self.pc), [f.copy() for f in self.frames], self.n, self.steps
        return s
    def new(self, v):
        self.n += 1
        self.cells[self.n] = v
        return self.n


def get_path(v, path):
    for k in path:
        if isinstance(v, (Adt, Tup, Arr, Clo)):
            if v.v and k < len(v.v):
                v = v.v[k]
            else:
                raise Unsupported(f"field {k} of {v}")
        else:
            raise Unsupported(f"projection into {type(v).__name__}")
    return v


def set_path(v, path, new):
    if not path:
        return new
    k = path[0]
    if isinstance(v, (Adt, Tup, Arr, Clo)):
        w = list(v.v)
        w[k] = set_path(w[k], path[1:], new)
        if isinstance(v, Adt): return Adt(v.ty, v.var, w)
        if isinstance(v, Tup): return Tup(w)
        if isinstance(v, Arr): return Arr(w)
        return Clo(v.name, w)
    raise Unsupported("assignment through " + type(v).__name__)


class Engine:
    def __init__(self, dump, contracts, crate_contracts=None, max_paths=4000, max_steps=6000):
        self.T = dump["types"]
        self.I = dump["insts"]
        self.contracts = contracts
        self.crate_contracts = crate_contracts or []
        self.max_paths, self.max_steps = max_paths, max_steps
        self.solver_s = 0.0
        self.queries = 0
        self.used_contracts = set()
        self.used_bodies = set()
        self.timeout_ms = 20000
        self.uf = {}
        self.conj_cache, self.keep = {}, []   # keep: terms stay alive so ids stay unique

    # ---- solver
    def check(self, conds, model=False, ms=None):
        s = z3.Solver()
        s.set("timeout", ms or self.timeout_ms)
        s.add(*conds)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown and ms is None and self.cvc5(s):
            r = z3.unsat
        if model:
            return r, (s.model() if r == z3.sat else None), s
        return r

    def cvc5(self, s):
        """second opinion on an obligation z3 gave no answer to"""
        import subprocess
        t = time.time()
        try:
            p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=20000", "-"], input="(set-logic ALL)\n" + s.to_smt2(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30)
            return p.stdout.strip().startswith("unsat")
        except Exception:
            return False
        finally:
            self.solver_s += time.time() - t

    def feasible(self, pc, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        known = set()
        for p in pc:
            self.conjuncts(p, known)
        cs = set()
        self.conjuncts(c, cs)
        if cs <= known: return True
        for k in (z3.And(c.children()).children() if z3.is_and(c) else [c]):
            n = z3.simplify(z3.Not(k))
            ns = set()
            self.conjuncts(n, ns)
            if ns <= known: return False
        return self.check(pc + [c], ms=3000) != z3.unsat     # no answer: explored as feasible

    def conjuncts(self, p, out):
        k = p.get_id()
        if k not in self.conj_cache:
            q = z3.simplify(p)
            self.keep.append((p, q))
            ids = set()
            st = [q]
            while st:
                e = st.pop()
                if z3.is_and(e): st += e.children()
                else: ids.add(e.get_id())
            self.conj_cache[k] = ids
        out |= self.conj_cache[k]

    # ---- uninterpreted functions of library contracts
    def fun(self, name, *sorts):
        if name not in self.uf:
            self.uf[name] = z3.Function(name, *sorts)
        return self.uf[name]

    # ---- types
    def tk(self, t): return self.T[t]
    def local_ty(self, fr, l): return self.I[fr.inst]["body"]["locals"][l]

    def place_ty(self, fr, p):
        t = self.local_ty(fr, p[0])
        for e in p[1]:
            if e[0] == "deref": t = self.T[t].get("of", t)
            elif e[0] == "field": t = e[2]
            elif e[0] in ("index", "cindex"): t = self.T[t]["of"]
        return t

    def adt_variant(self, ty, name):
        for i, v in enumerate(self.T[ty]["variants"]):
            if v["name"] == name:
                return i
        raise Unsupported(f"no variant {name}")

    def mk(self, ty, name, *fields):
        return Adt(ty, self.adt_variant(ty, name), fields)

    # ---- places
    def resolve(self, st, fr, p):
        """-> ('cell', cell, path) or ('val', value) for pseudo places behind fat pointers"""
        if p[0] not in fr.loc:
            fr.loc[p[0]] = st.new(None)
        cell, path = fr.loc[p[0]], []
        cur = None
        for e in p[1]:
            if e[0] == "deref":
                v = get_path(st.cells[cell], path) if cur is None else cur
                if isinstance(v, Ref):
                    cell, path, cur = v.cell, list(v.path), None
                elif isinstance(v, (Str, Slice, Opq)):
                    cur = v
                else:
                    raise Unsupported(f"deref of {type(v).__name__}")
            elif e[0] == "field":
                if cur is not None: raise Unsupported("field of pseudo place")
                path.append(e[1])
            elif e[0] == "downcast":
                pass
            elif e[0] == "index":
                i = z3.simplify(self.read(st, fr, [e[1], []]))
                if not z3.is_bv_value(i): raise Unsupported("symbolic index")
                i = i.as_long()
                if isinstance(cur, Slice):
                    cell, path, i, cur = cur.ref.cell, list(cur.ref.path), i + cur.lo, None
                path.append(i)
            elif e[0] == "cindex":
                if isinstance(cur, Slice):
                    n = cur.hi - cur.lo
                    i = n - e[1] if e[3] else e[1]
                    cell, path, i, cur = cur.ref.cell, list(cur.ref.path), i + cur.lo, None
                else:
                    arr = get_path(st.cells[cell], path)
                    i = len(arr.v) - e[1] if e[3] else e[1]
                path.append(i)
            else:
                raise Unsupported("projection " + e[0])
        return ("val", cur) if cur is not None else ("cell", cell, tuple(path))

    def read(self, st, fr, p):
        r = self.resolve(st, fr, p)
        v = r[1] if r[0] == "val" else get_path(st.cells[r[1]], r[2])
        if v is None: return UNDEF
        return v

    def write(self, st, fr, p, v):
        r = self.resolve(st, fr, p)
        if r[0] == "val": raise Unsupported("write to pseudo place")
        cur = st.cells[r[1]]
        if r[2] and cur is None:
            raise Unsupported("partial initialisation")
        st.cells[r[1]] = set_path(cur, r[2], v)

    def load(self, st, ref):
        """value behind a pointer value"""
        if isinstance(ref, Ref): return get_path(st.cells[ref.cell], ref.path)
        if isinstance(ref, Str): return ref
        raise Unsupported("load through " + type(ref).__name__)

    def store(self, st, ref, v):
        if not isinstance(ref, Ref): raise Unsupported("store")
        st.cells[ref.cell] = set_path(st.cells[ref.cell], ref.path, v)

    # ---- constants and operands
    def const(self, st, ty, c):
        k = self.T[ty]
        if c is None: raise Unsupported(f"constant of type {k}")
        if "zst" in c or "unit" in c or "fndef" in c:
            if k["k"] == "fndef": return Fn(ty)
            if k["k"] == "tuple": return UNIT
            if k["k"] == "closure": return Clo(k["name"], ())
            if k["k"] == "adt" and not k["enum"] and len(k["variants"]) == 1:
                return Adt(ty, 0, [self.const(st, f[1], {"zst": 1}) for f in k["variants"][0]["fields"]])
            return Opq("zst", ty)
        if "bool" in c: return z3.BoolVal(c["bool"])
        if "char" in c: return z3.BitVecVal(c["char"], 32)
        if "bits" in c: return z3.BitVecVal(int(c["bits"]), c["w"])
        if "fbits" in c:
            if c["w"] == 32: return z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(c["fbits"]), 32), F32))
            if c["w"] == 64: return z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(c["fbits"]), 64), z3.Float64()))
            raise Unsupported("float width")
        if "str" in c: return Str(strval(c["str"]))
        if "ref" in c:
            v = self.const(st, k["of"], c["ref"])
            if isinstance(v, Arr) and self.T[k["of"]]["k"] == "slice":
                return Slice(Ref(st.new(v)), 0, len(v.v))
            return Ref(st.new(v))
        if "array" in c:
            return Arr([self.const(st, k["of"], x) for x in c["array"]])
        if "struct" in c:
            if k["k"] != "adt" or not k["variants"]: return Opq("constant", ty, str(c))
            fs = k["variants"][0]["fields"]
            return Adt(ty, 0, [self.const(st, f[1], x) for f, x in zip(fs, c["struct"])])
        if "variant" in c: return Adt(ty, c["variant"], ())
        raise Unsupported("constant")

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"): return self.read(st, fr, o[1])
        if o[0] == "const": return self.const(st, o[1], o[2])
        if o[0] == "rtcheck": return z3.BoolVal(False)
        raise Unsupported("operand " + o[0])

    def operand_ty(self, fr, o):
        return o[1] if o[0] == "const" else self.place_ty(fr, o[1])

    # ---- rvalues
    def binop(self, op, a, b, k):
        signed = k["k"] == "int"
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, z3.FPRef):
            m = {"Lt": z3.fpLT, "Le": z3.fpLEQ, "Gt": z3.fpGT, "Ge": z3.fpGEQ, "Eq": z3.fpEQ, "Ne": z3.fpNEQ}
            if op in m: return m[op](a, b)
            ar = {"Add": z3.fpAdd, "Sub": z3.fpSub, "Mul": z3.fpMul, "Div": z3.fpDiv}
            if op in ar: return ar[op](z3.RNE(), a, b)
            raise Unsupported("float op " + op)
        if isinstance(a, z3.BoolRef):
            m = {"Eq": lambda: a == b, "Ne": lambda: a != b, "BitAnd": lambda: z3.And(a, b),
                 "BitOr": lambda: z3.Or(a, b), "BitXor": lambda: z3.Xor(a, b),
                 "Lt": lambda: z3.And(z3.Not(a), b), "Gt": lambda: z3.And(a, z3.Not(b))}
            if op in m: return m[op]()
            raise Unsupported("bool op " + op)
        if isinstance(a, z3.BitVecRef):
            if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
                w = a.size()
                bb = z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
                bb = bb & (w - 1)
                return a << bb if op.startswith("Shl") else (a >> bb if signed else z3.LShR(a, bb))
            m = {"Eq": lambda: a == b, "Ne": lambda: a != b,
                 "Lt": lambda: a < b if signed else z3.ULT(a, b), "Le": lambda: a <= b if signed else z3.ULE(a, b),
                 "Gt": lambda: a > b if signed else z3.UGT(a, b), "Ge": lambda: a >= b if signed else z3.UGE(a, b),
                 "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
                 "AddUnchecked": lambda: a + b, "SubUnchecked": lambda: a - b, "MulUnchecked": lambda: a * b,
                 "Div": lambda: a / b if signed else z3.UDiv(a, b), "Rem": lambda: z3.SRem(a, b) if signed else z3.URem(a, b),
                 "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}
            if op in m: return m[op]()
        raise Unsupported("binop " + op)

    def checked(self, op, a, b, k):
        signed = k["k"] == "int"
        w = a.size()
        ext = (lambda x: z3.SignExt(w, x)) if signed else (lambda x: z3.ZeroExt(w, x))
        f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y}.get(op.replace("WithOverflow", ""))
        if f is None: raise Unsupported("checked " + op)
        wide, nar = f(ext(a), ext(b)), f(a, b)
        return Tup([nar, wide != ext(nar)])

    def discr(self, v, p_ty):
        if isinstance(v, Adt):
            return int(self.T[v.ty]["variants"][v.var]["discr"])
        if isinstance(v, Opq): raise Unsupported("discriminant of " + v.kind)
        raise Unsupported("discriminant")

    def rvalue(self, st, fr, r, dest_ty):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref":
            p = r[1]
            if p[1] and p[1][-1][0] == "deref":
                return self.read(st, fr, [p[0], p[1][:-1]])
            x = self.resolve(st, fr, p)
            if x[0] == "val": raise Unsupported("ref of pseudo place")
            return Ref(x[1], x[2])
        if k == "repeat": return Arr([self.operand(st, fr, r[1])] * r[2])
        if k == "len":
            v = self.read(st, fr, r[1])
            n = (v.hi - v.lo) if isinstance(v, Slice) else len(v.v)
            return z3.BitVecVal(n, 64)
        if k == "cast": return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], self.operand_ty(fr, r[2]))
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ty = self.tk(self.operand_ty(fr, r[2]))
            if r[1].endswith("WithOverflow"): return self.checked(r[1], a, b, ty)
            return self.binop(r[1], a, b, ty)
        if k == "cbin":
            return self.checked(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.tk(self.operand_ty(fr, r[2])))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not": return z3.Not(v) if isinstance(v, z3.BoolRef) else ~v
            if r[1] == "Neg": return z3.fpNeg(v) if isinstance(v, z3.FPRef) else -v
            if r[1] == "PtrMetadata":
                if isinstance(v, Slice): return z3.BitVecVal(v.hi - v.lo, 64)
                if isinstance(v, Ref):
                    w = self.load(st, v)
                    if isinstance(w, Arr): return z3.BitVecVal(len(w.v), 64)
            raise Unsupported("unop " + r[1])
        if k == "discr":
            v = self.read(st, fr, r[1])
            if v is UNDEF: return UNDEF
            d = self.discr(v, None)
            w = self.T[dest_ty].get("w", 64)
            return z3.BitVecVal(d, w)
        if k == "array": return Arr([self.operand(st, fr, o) for o in r[1]])
        if k == "tuple": return Tup([self.operand(st, fr, o) for o in r[1]])
        if k == "adt": return Adt(r[1], r[2], [self.operand(st, fr, o) for o in r[3]])
        if k == "closure": return Clo(r[1], [self.operand(st, fr, o) for o in r[2]])
        raise Unsupported("rvalue " + str(r[:2]))

    def cast(self, st, kind, v, ty, from_ty):
        k = self.T[ty]
        fk = self.T[from_ty]
        if kind.startswith("IntToInt"):
            if isinstance(v, Adt): v = z3.BitVecVal(int(self.T[v.ty]["variants"][v.var]["discr"]), 64)
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            w, o = k.get("w", 32), v.size()
            if w < o: return z3.Extract(w - 1, 0, v)
            if w == o: return v
            return z3.SignExt(w - o, v) if fk["k"] == "int" else z3.ZeroExt(w - o, v)
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind: return v
            return v
        if kind.startswith("IntToFloat"):
            s = F32 if k["w"] == 32 else z3.Float64()
            return z3.fpSignedToFP(z3.RNE(), v, s) if fk["k"] == "int" else z3.fpUnsignedToFP(z3.RNE(), v, s)
        if kind.startswith("FloatToFloat"):
            return z3.fpFPToFP(z3.RNE(), v, F32 if k["w"] == 32 else z3.Float64())
        if kind.startswith("PtrToPtr") or kind.startswith("Subtype"): return v
        raise Unsupported("cast " + kind)

    # ---- calls
    def find_contract(self, inst):
        name = self.I[inst]["name"]
        for rx, f in self.crate_contracts:
            if rx.search(name): return f
        for rx, f in self.contracts:
            if rx.search(name): return f
        return None

    def call(self, st, inst, args, dest, target):
        """-> list of successor states"""
        i = self.I[inst]
        if i is None: raise Unsupported("not dumped")
        c = self.find_contract(inst)
        if c is not None:
            self.used_contracts.add(i["name"][:120])
            self.ret_ty = self.place_ty(st.frames[-1], dest) if st.frames[-1].inst is not None else i["sig_out"]
            outs = c(self, st, inst, args)
            return self.apply_outcomes(st, outs, dest, target)
        return self.enter(st, inst, args, dest, target)

    def enter(self, st, inst, args, dest, target):
        i = self.I[inst]
        b = i["body"]
        if b is None:
            raise Unsupported("no contract for " + i["name"][:140])
        if i["local"]:
            self.used_bodies.add(i["def"])
        args = list(args)
        ck = self.T[i["ty"]]["k"]
        if ck == "closure" and b["args"] == len(args) and b["args"] >= 2 and isinstance(args[1], Tup):
            t = b["locals"][2]
            if not (self.T[t]["k"] == "tuple"):
                args = [args[0]] + list(args[1].v)
        elif ck == "closure" and len(args) == 2 and isinstance(args[1], Tup) and b["args"] != 2:
            args = [args[0]] + list(args[1].v)
        if b["spread"] is not None and len(args) != b["args"]:
            pass
        if len(args) != b["args"]:
            raise Unsupported(f"argument count in {i['name'][:100]}: {len(args)} vs {b['args']}")
        if len(st.frames) > 60: raise Unsupported("recursion")
        fr = Frame(inst, {}, dest, target)
        for n, a in enumerate(args):
            fr.loc[n + 1] = st.new(a)
        st.frames.append(fr)
        return [st]

    def apply_outcomes(self, st, outs, dest, target):
        res = []
        live = [(c, o) for c, o in outs if self.feasible(st.pc, c)]
        for n, (c, o) in enumerate(live):
            s = st.copy() if n + 1 < len(live) else st
            c = z3.simplify(c)
            if not z3.is_true(c): s.pc.append(c)
            o = o(s) if callable(o) else o
            if isinstance(o, Panic):
                res.append((s, o))
                continue
            if isinstance(o, Invoke):
                res += self.invoke(s, o, dest, target)
                continue
            fr = s.frames[-1]
            self.write(s, fr, dest, o)
            if target is None: raise Unsupported("return from diverging call")
            fr.bb = target
            res.append(s)
        return res

    def invoke(self, st, inv, dest, target):
        f = inv.f
        if isinstance(f, Ref): f = self.load(st, f)
        if isinstance(f, Fn):
            inst = self.T[f.ty]["inst"]
            if inst is None: raise Unsupported("fn item")
            return self.call(st, inst, inv.args, dest, target)
        if isinstance(f, Clo):
            for n, i in enumerate(self.I):
                if i and i["body"] and self.T[i["ty"]]["k"] == "closure" and self.T[i["ty"]]["name"] == f.name and i["kind"] == "item":
                    b = i["body"]
                    self_ty = self.T[b["locals"][1]]["k"]
                    a0 = f
                    if self_ty == "ref": a0 = Ref(st.new(f))
                    return self.enter(st, n, [a0] + list(inv.args), dest, target)
        raise Unsupported("indirect call")

    def pure_call(self, st, f, args):
        """truth value of a side-effect free predicate, as a formula"""
        for n, i in enumerate(self.I):
            if i and i["body"] and self.T[i["ty"]]["k"] == "closure" and self.T[i["ty"]]["name"] == f.name and i["kind"] == "item":
                s = st.copy()
                base = len(s.pc)
                before = dict(s.cells)
                a0 = Ref(s.new(f)) if self.T[i["body"]["locals"][1]]["k"] == "ref" else f
                res = []
                ret = self.ret_ty
                for t, o in self.run(n, [a0] + args, s):
                    if o[0] != "ret" or not isinstance(o[1], z3.BoolRef): raise Unsupported("predicate may panic")
                    if any(t.cells[c] is not v for c, v in before.items()): raise Unsupported("predicate with effects")
                    res.append(z3.And(t.pc[base:] + [o[1]]))
                self.ret_ty = ret
                return z3.Or(res)
        raise Unsupported("predicate")

    # ---- main loop
    def run(self, inst, args, st=None):
        """-> list of (state, ('ret', value) | ('panic', msg))"""
        st = st or State()
        root = Frame(inst, {}, None, None)
        out = []
        dest_cell = st.new(None)
        ret_fr = Frame(None, {0: dest_cell}, None, None)
        st.frames = [ret_fr]
        work = [s for s in self.enter(st, inst, args, [0, []], 0)]
        paths = 0
        while work:
            s = work.pop()
            if isinstance(s, tuple):
                out.append((s[0], ("panic", s[1].msg)))
                continue
            if len(s.frames) == 1:
                out.append((s, ("ret", s.cells[s.frames[0].loc[0]])))
                paths += 1
                if paths > self.max_paths: raise Unsupported("too many paths")
                continue
            try:
                work += self.step(s)
            except Unsupported as e:
                fr = s.frames[-1]
                where = self.I[fr.inst]["name"][:140] if fr.inst is not None else "?"
                raise Unsupported(f"{e} (in {where}, block {fr.bb})") from None
        return out

    def step(self, st):
        fr = st.frames[-1]
        body = self.I[fr.inst]["body"]
        blk = body["blocks"][fr.bb]
        st.steps += 1
        if st.steps > self.max_steps: raise Unsupported("step limit (unbounded loop?)")
        for s in blk["s"]:
            if s[0] == "assign":
                self.write(st, fr, s[1], self.rvalue(st, fr, s[2], self.place_ty(fr, s[1])))
            elif s[0] == "assume":
                pass
            elif s[0] == "setdiscr":
                raise Unsupported("set discriminant")
            else:
                raise Unsupported(str(s[1]))
        t = blk["t"]
        if t[0] == "goto":
            fr.bb = t[1]
            return [st]
        if t[0] == "return":
            v = st.cells.get(fr.loc.get(0)) if 0 in fr.loc else UNIT
            if v is None: v = UNIT
            st.frames.pop()
            up = st.frames[-1]
            if up.inst is None:
                st.cells[up.loc[0]] = v
            else:
                self.write(st, up, fr.dest, v)
                up.bb = fr.target
            return [st]
        if t[0] == "unreachable":
            if self.check(st.pc) == z3.unsat: return []
            return [(st, Panic("unreachable code reached"))]
        if t[0] == "switch":
            v = self.operand(st, fr, t[1])
            if v is UNDEF: raise Unsupported("branch on undefined value")
            if isinstance(v, z3.BoolRef):
                cases = [(z3.Not(v) if int(k) == 0 else v, b) for k, b in t[2]]
            else:
                w = v.size()
                cases = [(v == z3.BitVecVal(int(k) & ((1 << w) - 1), w), b) for k, b in t[2]]
            other = z3.And([z3.Not(c) for c, _ in cases])
            cases.append((other, t[3]))
            live = [(c, b) for c, b in cases if self.feasible(st.pc, c)]
            res = []
            for n, (c, b) in enumerate(live):
                s = st.copy() if n + 1 < len(live) else st
                c = z3.simplify(c)
                if not z3.is_true(c): s.pc.append(c)
                s.frames[-1].bb = b
                res.append(s)
            return res
        if t[0] == "assert":
            c = self.operand(st, fr, t[1])
            if c is UNDEF: raise Unsupported("assertion on undefined value")
            if not t[2]: c = z3.Not(c)
            res = []
            bad = z3.Not(c)
            if self.feasible(st.pc, bad):
                s = st.copy()
                s.pc.append(bad)
                res.append((s, Panic(t[3])))
            if self.feasible(st.pc, c):
                c = z3.simplify(c)
                if not z3.is_true(c): st.pc.append(c)
                fr.bb = t[4]
                res.append(st)
            return res
        if t[0] == "call":
            args = [self.operand(st, fr, o) for o in t[2]]
            if t[1] is None:
                f = self.operand(st, fr, t[5])
                return self.invoke(st, Invoke(f, args), t[3], t[4])
            return self.call(st, t[1], args, t[3], t[4])
        raise Unsupported("terminator " + str(t[0]))


class Panic:
    def __init__(self, msg): self.msg = msg


class Invoke:
    def __init__(self, f, args): self.f, self.args = f, args


def strval(s):
    """z3 string literal for any Unicode text"""
    out = ""
    for c in s:
        o = ord(c)
        out += c if 32 <= o < 127 and c != "\\" else "\\u{%x}" % o
    return z3.StringVal(out)
