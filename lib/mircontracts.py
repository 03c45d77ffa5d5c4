"""Contracts of the library functions the front end calls (assumed; they are the trusted base of
the symbolic front-end proofs)."""
import re
import z3
from mirsym import *

CONTRACTS = []


def contract(rx):
    def deco(f):
        CONTRACTS.append((re.compile(rx), f))
        return f
    return deco


TRUE = z3.BoolVal(True)


def some(ex, ty, v): return ex.mk(ty, "Some", v)
def none(ex, ty): return ex.mk(ty, "None")


def term(ex, st, v):
    """string term behind &str, &&str, String, &String, char"""
    for _ in range(4):
        if isinstance(v, (Str, OStr)): return v.t
        if isinstance(v, Ref): v = ex.load(st, v)
        else: break
    if isinstance(v, z3.BitVecRef) and v.size() == 32:
        v = z3.simplify(v)
        if z3.is_bv_value(v): return strval(chr(v.as_long()))
    if isinstance(v, Adt) and len(v.v) == 1 and isinstance(v.v[0], (Str, OStr)): return v.v[0].t   # Cow
    raise Unsupported("string pattern")


def pats(ex, st, v):
    """pattern -> list of alternatives"""
    w = ex.load(st, v) if isinstance(v, Ref) else v
    if isinstance(w, Arr): return [term(ex, st, x) for x in w.v]
    if isinstance(v, Slice):
        a = ex.load(st, v.ref)
        return [term(ex, st, x) for x in a.v[v.lo:v.hi]]
    return [term(ex, st, v)]


def after(s, n): return z3.SubString(s, n, z3.Length(s) - n)


# --- panics
@contract(r"^(core|std)::panicking::(panic\b|panic_|unreachable_display|assert_failed)|::unwrap_failed|::expect_failed|slice_error_fail|panic_bounds_check|panic_const|begin_panic|slice_index_fail|_len_fail|_order_fail")
def c_panic(ex, st, inst, a): return [(TRUE, Panic(ex.I[inst]["name"][:80]))]


# --- str
@contract(r"str::<impl str>::starts_with::<")
def c_starts(ex, st, inst, a):
    s = term(ex, st, a[0])
    return [(TRUE, z3.Or([z3.PrefixOf(p, s) for p in pats(ex, st, a[1])]))]


@contract(r"str::<impl str>::ends_with::<")
def c_ends(ex, st, inst, a):
    s = term(ex, st, a[0])
    return [(TRUE, z3.Or([z3.SuffixOf(p, s) for p in pats(ex, st, a[1])]))]


@contract(r"str::<impl str>::contains::<")
def c_contains(ex, st, inst, a):
    s = term(ex, st, a[0])
    return [(TRUE, z3.Or([z3.Contains(s, p) for p in pats(ex, st, a[1])]))]


@contract(r"str::<impl str>::is_empty$|String::is_empty$")
def c_empty(ex, st, inst, a): return [(TRUE, term(ex, st, a[0]) == strval(""))]


@contract(r"str::<impl str>::strip_prefix::<")
def c_strip_prefix(ex, st, inst, a):
    s, (p,) = term(ex, st, a[0]), pats(ex, st, a[1])
    c = z3.PrefixOf(p, s)
    return [(c, some(ex, ex.ret_ty, Str(after(s, z3.Length(p))))), (z3.Not(c), none(ex, ex.ret_ty))]


@contract(r"str::<impl str>::strip_suffix::<")
def c_strip_suffix(ex, st, inst, a):
    s, (p,) = term(ex, st, a[0]), pats(ex, st, a[1])
    c = z3.SuffixOf(p, s)
    return [(c, some(ex, ex.ret_ty, Str(z3.SubString(s, 0, z3.Length(s) - z3.Length(p))))), (z3.Not(c), none(ex, ex.ret_ty))]


@contract(r"str::<impl str>::split_once::<")
def c_split_once(ex, st, inst, a):
    s, (p,) = term(ex, st, a[0]), pats(ex, st, a[1])
    c = z3.Contains(s, p)
    i = z3.IndexOf(s, p, 0)
    return [(c, some(ex, ex.ret_ty, Tup([Str(z3.SubString(s, 0, i)), Str(after(s, i + z3.Length(p)))]))),
            (z3.Not(c), none(ex, ex.ret_ty))]


@contract(r"str::<impl str>::rsplit_once::<")
def c_rsplit_once(ex, st, inst, a):
    s, (p,) = term(ex, st, a[0]), pats(ex, st, a[1])
    c = z3.Contains(s, p)
    i = z3.LastIndexOf(s, p)
    return [(c, some(ex, ex.ret_ty, Tup([Str(z3.SubString(s, 0, i)), Str(after(s, i + z3.Length(p)))]))),
            (z3.Not(c), none(ex, ex.ret_ty))]


@contract(r"str::<impl str>::split::<")
def c_split(ex, st, inst, a):
    (p,) = pats(ex, st, a[1])
    return [(TRUE, Opq("split", term(ex, st, a[0]), False, p, None))]


@contract(r"str::<impl str>::splitn::<")
def c_splitn(ex, st, inst, a):
    n = z3.simplify(a[1])
    (p,) = pats(ex, st, a[2])
    if not z3.is_bv_value(n): raise Unsupported("splitn")
    return [(TRUE, Opq("split", term(ex, st, a[0]), n.as_long() == 0, p, n.as_long()))]


@contract(r"^<(std::str|core::str)(::iter)?::SplitN?<.*> as std::iter::Iterator>::next$")
def c_split_next(ex, st, inst, a):
    it = ex.load(st, a[0])
    if not isinstance(it, Opq) or it.kind != "split": raise Unsupported("split iterator")
    rest, done, p, n = it.d
    ty = ex.ret_ty
    if done: return [(TRUE, none(ex, ty))]

    def last(s):
        ex.store(s, a[0], Opq("split", rest, True, p, n))
        return some(ex, ty, Str(rest))
    if n == 1: return [(TRUE, last)]
    c = z3.Contains(rest, p)
    i = z3.IndexOf(rest, p, 0)

    def more(s):
        ex.store(s, a[0], Opq("split", after(rest, i + z3.Length(p)), False, p, None if n is None else n - 1))
        return some(ex, ty, Str(z3.SubString(rest, 0, i)))
    return [(c, more), (z3.Not(c), last)]


@contract(r"^<std::str::SplitN?<.*> as std::iter::IntoIterator>::into_iter$")
def c_split_into_iter(ex, st, inst, a): return [(TRUE, a[0])]


@contract(r"(str::traits::)?<impl std::(ops::Index|slice::SliceIndex)<.*RangeFrom<usize>.*for str>::index$|<str as std::ops::Index<std::ops::RangeFrom<usize>>>::index$")
def c_index_from(ex, st, inst, a):
    s = term(ex, st, a[0])
    n = z3.simplify(a[1].v[0])
    if not z3.is_bv_value(n): raise Unsupported("symbolic string index")
    n = n.as_long()
    if n == 0: return [(TRUE, Str(s))]
    ok = z3.And([z3.Length(s) >= n] + [z3.And(z3.StrToCode(z3.SubString(s, i, 1)) < 128, z3.StrToCode(z3.SubString(s, i, 1)) >= 0) for i in range(n)])
    bad = z3.Not(ok)
    if n > 1 and ex.feasible(st.pc, bad): raise Unsupported("byte index > 1 without an ASCII prefix")
    return [(ok, Str(after(s, n))), (bad, Panic("string index out of range or not a character boundary"))]


@contract(r"<impl std::cmp::PartialEq for str>::eq$|<impl std::cmp::PartialEq<.*str> for (std::string::)?String>::eq$|<impl std::cmp::PartialEq<(std::string::)?String> for .*str>::eq$|^<(std::string::)?String as std::cmp::PartialEq(<.*>)?>::eq$")
def c_str_eq(ex, st, inst, a): return [(TRUE, term(ex, st, a[0]) == term(ex, st, a[1]))]


@contract(r"<impl std::cmp::PartialEq for str>::ne$|^<(std::string::)?String as std::cmp::PartialEq(<.*>)?>::ne$")
def c_str_ne(ex, st, inst, a): return [(TRUE, term(ex, st, a[0]) != term(ex, st, a[1]))]


@contract(r"^<(std::string::)?String as std::convert::From<(&str|&(mut )?std::string::String|std::borrow::Cow<.*str>|char|std::boxed::Box<str>)>>::from$|str::<impl str>::(to_owned|to_string|into_string)$|<str as std::(borrow::ToOwned|string::ToString)>::(to_owned|to_string)$|<impl std::borrow::ToOwned for str>::to_owned$|^<(std::string::)?String as std::clone::Clone>::clone$|^<&?str as std::string::(Spec)?ToString>::(spec_)?to_string$|^<std::string::String as std::string::(Spec)?ToString>::(spec_)?to_string$|^std::borrow::Cow::<'_, str>::into_owned$|^<std::borrow::Cow<'_, str> as std::string::(Spec)?ToString>::(spec_)?to_string$")
def c_to_string(ex, st, inst, a): return [(TRUE, OStr(term(ex, st, a[0])))]


@contract(r"^<(std::string::)?String as std::ops::Deref>::deref$|String::as_str$|^<(std::string::)?String as std::(convert::AsRef|borrow::Borrow)<str>>::(as_ref|borrow)$|^<std::borrow::Cow<'_, str> as std::(ops::Deref>::deref|convert::AsRef<str>>::as_ref)$|^<str as std::convert::AsRef<str>>::as_ref$")
def c_as_str(ex, st, inst, a): return [(TRUE, Str(term(ex, st, a[0])))]


# --- number parsing and printing: uninterpreted functions of the text
def prim(ex, t):
    k = ex.T[t]
    if k["k"] == "float" and k["w"] in (32, 64): return f"f{k['w']}", F32 if k["w"] == 32 else z3.Float64()
    if k["k"] in ("int", "uint"): return f"{k['k'][0]}{k['w']}", z3.BitVecSort(k["w"])
    if k["k"] == "bool": return "bool", z3.BoolSort()
    return None, None


def parse_prim(ex, t, s, ret):
    n, sort = prim(ex, t)
    ok = z3.And(s != strval(""), ex.fun(f"parses_{n}", z3.StringSort(), z3.BoolSort())(s))   # no number is empty
    val = ex.fun(f"value_{n}", z3.StringSort(), sort)(s)
    return [(ok, ex.mk(ret, "Ok", val)), (z3.Not(ok), ex.mk(ret, "Err", Opq("parse-error", s)))]


@contract(r"str::<impl str>::parse::<(f32|f64|[ui](8|16|32|64|128|size)|bool)>$")
def c_parse(ex, st, inst, a): return parse_prim(ex, ex.I[inst]["targs"][-1], term(ex, st, a[0]), ex.ret_ty)


@contract(r"FromStr for (f32|f64|[ui](8|16|32|64|128|size))>::from_str$|^<(f32|f64|[ui](8|16|32|64|128|size)) as std::str::FromStr>::from_str$")
def c_from_str(ex, st, inst, a):
    rt = ex.T[ex.ret_ty]
    return parse_prim(ex, rt["args"][0], term(ex, st, a[0]), ex.ret_ty)


@contract(r"str::<impl str>::parse::<std::num::NonZero<u32>>$")
def c_parse_nz(ex, st, inst, a):
    s = term(ex, st, a[0])
    ok = z3.And(s != strval(""), ex.fun("parses_u32", z3.StringSort(), z3.BoolSort())(s))
    val = ex.fun("value_u32", z3.StringSort(), z3.BitVecSort(32))(s)
    return [(z3.And(ok, val != 0), ex.mk(ex.ret_ty, "Ok", Opq("nz", val))),
            (z3.Not(z3.And(ok, val != 0)), ex.mk(ex.ret_ty, "Err", Opq("parse-error", s)))]


@contract(r"^<(f32|f64|u8|u16|u32|u64|usize|i32|i64) as std::string::ToString>::to_string$")
def c_show(ex, st, inst, a):
    v = ex.load(st, a[0])
    return [(TRUE, OStr(show(ex, v)))]


def show(ex, v):
    n = "f" + str(v.sbits() + v.ebits()) if isinstance(v, z3.FPRef) else f"u{v.size()}"
    return ex.fun(f"shown_{n}", v.sort(), z3.StringSort())(v)


# --- NonZero
@contract(r"NonZero::<u\d+>::new$")
def c_nz_new(ex, st, inst, a):
    return [(a[0] != 0, some(ex, ex.ret_ty, Opq("nz", a[0]))), (a[0] == 0, none(ex, ex.ret_ty))]


@contract(r"NonZero::<u\d+>::get$")
def c_nz_get(ex, st, inst, a): return [(TRUE, a[0].d[0])]


@contract(r"^<std::num::NonZero<u32> as std::convert::TryFrom<u32>>::try_from$")
def c_nz_try(ex, st, inst, a):
    return [(a[0] != 0, ex.mk(ex.ret_ty, "Ok", Opq("nz", a[0]))), (a[0] == 0, ex.mk(ex.ret_ty, "Err", Opq("int-error")))]


# --- floats
@contract(r"<impl f(32|64)>::is_finite$")
def c_fin(ex, st, inst, a): return [(TRUE, z3.Not(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsInf(a[0]))))]
@contract(r"<impl f(32|64)>::is_nan$")
def c_nan(ex, st, inst, a): return [(TRUE, z3.fpIsNaN(a[0]))]
@contract(r"<impl f(32|64)>::is_infinite$")
def c_inf(ex, st, inst, a): return [(TRUE, z3.fpIsInf(a[0]))]
@contract(r"<impl f(32|64)>::is_sign_negative$")
def c_neg(ex, st, inst, a):
    return [(TRUE, z3.And(z3.Not(z3.fpIsNaN(a[0])), z3.fpIsNegative(a[0])))]
@contract(r"<impl f(32|64)>::abs$")
def c_abs(ex, st, inst, a): return [(TRUE, z3.fpAbs(a[0]))]


# --- slices and ranges
@contract(r"slice::<impl \[.*\]>::iter(_mut)?$")
def c_iter(ex, st, inst, a):
    if isinstance(a[0], Slice): return [(TRUE, Opq("iter", a[0].ref, a[0].lo, a[0].hi))]
    n = len(ex.load(st, a[0]).v)
    return [(TRUE, Opq("iter", a[0], 0, n))]


@contract(r"^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$")
def c_iter_next(ex, st, inst, a):
    it = ex.load(st, a[0])
    ref, lo, hi = it.d
    ty = ex.ret_ty
    if lo >= hi: return [(TRUE, none(ex, ty))]

    def go(s):
        ex.store(s, a[0], Opq("iter", ref, lo + 1, hi))
        return some(ex, ty, Ref(ref.cell, ref.path + (lo,)))
    return [(TRUE, go)]


@contract(r"<impl std::iter::Iterator for std::ops::Range<(usize|u32|i32|u64)>>::next$")
def c_range_next(ex, st, inst, a):
    r = ex.load(st, a[0])
    lo, hi = r.v
    ty = ex.ret_ty
    def go(s):
        ex.store(s, a[0], Adt(r.ty, r.var, (z3.simplify(lo + 1), hi)))
        return some(ex, ty, lo)
    return [(z3.ULT(lo, hi), go), (z3.Not(z3.ULT(lo, hi)), none(ex, ty))]


# --- closures and function items
@contract(r" as std::ops::Fn(Once|Mut)?<.*>>::call(_once|_mut)?$")
def c_call(ex, st, inst, a):
    f = a[0]
    if isinstance(f, Ref): f = ex.load(st, f)
    args = list(a[1].v)
    if isinstance(f, Fn) or isinstance(f, Clo): return [(TRUE, Invoke(f, args))]
    raise Unsupported("call of " + type(f).__name__)


# --- intrinsics
@contract(r"^(std|core)::intrinsics::(cold_path|assume|assert_inhabited)")
def c_cold(ex, st, inst, a): return [(TRUE, UNIT)]
@contract(r"^(std|core)::(intrinsics|hint)::(black_box|likely|unlikely|identity)")
def c_id(ex, st, inst, a): return [(TRUE, a[0])]


@contract(r"^(std|core)::intrinsics::discriminant_value")
def c_discr(ex, st, inst, a):
    v = ex.load(st, a[0])
    return [(TRUE, z3.BitVecVal(ex.discr(v, None), ex.T[ex.ret_ty].get("w", 64)))]


# --- urlencoding
@contract(r"^urlencoding::decode$")
def c_pct(ex, st, inst, a):
    s = term(ex, st, a[0])
    has = z3.Contains(s, strval("%"))
    ok = ex.fun("pct_is_utf8", z3.StringSort(), z3.BoolSort())(s)
    val = ex.fun("pct_decoded", z3.StringSort(), z3.StringSort())(s)
    ret = ex.ret_ty
    cow = ex.T[ret]["args"][0]
    return [(z3.Not(has), ex.mk(ret, "Ok", ex.mk(cow, "Borrowed", Str(s)))),
            (z3.And(has, ok), ex.mk(ret, "Ok", ex.mk(cow, "Owned", OStr(val)))),
            (z3.And(has, z3.Not(ok)), ex.mk(ret, "Err", Opq("utf8-error", s)))]


def stop_list():
    return ["core::fmt", "std::fmt", "alloc::fmt", "alloc::raw_vec", "core::str::pattern", "memchr"]


# --- paths (Unix)
FULL = z3.Full(z3.ReSort(z3.StringSort()))


def component(rx):
    """some '/'-separated component matches rx"""
    sep = z3.Re("/")
    return z3.Concat(z3.Option(z3.Concat(FULL, sep)), rx, z3.Option(z3.Concat(sep, FULL)))


NAME = z3.Intersect(z3.Plus(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re("/")))),
                    z3.Complement(z3.Re(".")), z3.Complement(z3.Re("..")))


def components(s):
    return {"Prefix": z3.BoolVal(False), "RootDir": z3.PrefixOf(strval("/"), s),
            "CurDir": z3.Or(s == strval("."), z3.PrefixOf(strval("./"), s)),
            "ParentDir": z3.InRe(s, component(z3.Re(".."))), "Normal": z3.InRe(s, component(NAME))}


@contract(r"^std::path::Path::new::<(str|std::string::String)>$|^<str as std::convert::AsRef<std::path::Path>>::as_ref$")
def c_path(ex, st, inst, a): return [(TRUE, Opq("path", term(ex, st, a[0])))]


@contract(r"^std::path::Path::components$")
def c_components(ex, st, inst, a): return [(TRUE, Opq("components", a[0].d[0]))]


@contract(r"^std::path::Path::(is_absolute|has_root)$")
def c_absolute(ex, st, inst, a): return [(TRUE, z3.PrefixOf(strval("/"), a[0].d[0]))]


@contract(r"^<std::path::Components<.*> as std::iter::Iterator>::(all|any)::<|^std::iter::Iterator::(all|any)::<")
def c_components_all(ex, st, inst, a):
    it = ex.load(st, a[0])
    if not isinstance(it, Opq) or it.kind != "components": raise Unsupported("iterator")
    every = "::all::<" in ex.I[inst]["name"]
    body = [i for i in ex.I if i and i["body"] and isinstance(a[1], Clo) and ex.T[i["ty"]].get("name") == a[1].name]
    if not body: raise Unsupported("component predicate")
    ty = body[0]["body"]["locals"][2]
    if ex.T[ty]["k"] != "adt": raise Unsupported("component predicate")
    out = []
    for n, v in enumerate(ex.T[ty]["variants"]):
        r = ex.pure_call(st, a[1], [Adt(ty, n, [Opq("component-payload")] * len(v["fields"]))])
        here = components(it.d[0])[v["name"]]
        out.append(z3.Implies(here, r) if every else z3.And(here, r))
    return [(TRUE, z3.simplify(z3.And(out) if every else z3.Or(out)))]


# --- hyper/http response building: infallible with a StatusCode and no header
@contract(r"^(http|hyper)::(response::)?Response::<\(\)>::builder$|^http::Response::<\(\)>::builder$")
def c_builder(ex, st, inst, a): return [(TRUE, Opq("builder", None))]
@contract(r"http::response::Builder::status::<")
def c_status(ex, st, inst, a):
    if "StatusCode" not in ex.I[inst]["name"]: raise Unsupported("status from a number")
    return [(TRUE, Opq("builder", a[1]))]
@contract(r"response::Builder::body::<")
def c_body(ex, st, inst, a): return [(TRUE, ex.mk(ex.ret_ty, "Ok", Opq("response", a[0].d[0], a[1])))]
@contract(r"ResponseBody::new::<")
def c_rbody(ex, st, inst, a): return [(TRUE, Opq("response-body"))]
