import z3
from mirsym import *
from mirspec import *
import mircontracts as mc

ENTRIES = ["decode_image_request", "iiif::ImageRequest::", "http::info_request"]
PROFILES = ["dev", "release"]
BOUND = "every path of 0 to 7 segments over a 7-value vocabulary per position (valid, invalid, empty, percent-encoded, not UTF-8)"
SLASH, DOT = strval("/"), strval(".")


def ok(ex, n): return ex.fun(f"ok_{n}", z3.StringSort(), z3.BoolSort())


def parser(n):
    """contract of <n as FromStr>::from_str, proved separately by C20 (region), C21 (size) and C22"""
    def c(ex, st, inst, a):
        s = mc.term(ex, st, a[0])
        return [(ok(ex, n)(s), ex.mk(ex.ret_ty, "Ok", Opq(n, s))),
                (z3.Not(ok(ex, n)(s)), ex.mk(ex.ret_ty, "Err", Opq("error-" + n, s)))]
    return c


import re
CRATE = [(re.compile(r"(str::<impl str>::parse::<(\w+::)*%s>|FromStr for (\w+::)*%s>::from_str|<(\w+::)*%s as std::str::FromStr>::from_str)$" % (n, n, n)), parser(n))
         for n in ("Region", "Size", "Rotation", "Quality", "Format")]


def request(ex, r, s):
    # the path starts with '/', so what precedes its first '/' is empty and what follows is the rest
    rest = split_once(s.t, SLASH)[1]
    more = True

    def segment():
        nonlocal rest, more
        if not more: return None
        if r.branch(z3.Contains(rest, SLASH)):
            x, rest = split_once(rest, SLASH)
        else:
            x, more = rest, False
        return x

    ident = segment()
    if r.branch(z3.Contains(ident, strval("%"))):
        if not r.branch(ex.fun("pct_is_utf8", z3.StringSort(), z3.BoolSort())(ident)):
            return V("Err", V("UriNotUtf8", Text("identifier")))
        ident = ex.fun("pct_decoded", z3.StringSort(), z3.StringSort())(ident)
    got = {}
    for n in ("Region", "Size", "Rotation"):
        x = segment()
        if x is None: return V("Err", V("UriMissingElement", Text(n.lower())))
        if not r.branch(ok(ex, n)(x)): return V("Err", V("ParseError", Abs("error-" + n, x)))
        got[n.lower()] = Abs(n, x)
    x = segment()
    if x is None: return V("Err", V("UriMissingElement", Text("quality")))
    if more: return ANY      # text after the fifth segment: what it means is left open
    if not r.branch(z3.Contains(x, DOT)): return V("Err", V("UriMissingElement", Text("format")))
    q, f = split_once(x, DOT)
    if not r.branch(ok(ex, "Quality")(q)): return V("Err", V("ParseError", Abs("error-Quality", q)))
    if not r.branch(ok(ex, "Format")(f)): return V("Err", V("ParseError", Abs("error-Format", f)))
    return V("Ok", V("ImageRequest", identifier=Text(ident), quality=Abs("Quality", q), format=Abs("Format", f), **got))


def args(ex, root):
    s = z3.String("path")
    yield "", [Str(s)], State(), [z3.PrefixOf(SLASH, s)]


FIELDS = ("region", "size", "rotation", "quality", "format")


def stored(ex, root):
    """a request with distinct unknown parts"""
    ty = ex.T[ex.I[root]["body"]["locals"][1]]["of"]
    parts = {"identifier": OStr(z3.String("ident"))}
    parts.update({n: Opq(n, z3.StringVal(n)) for n in FIELDS})
    fs = [f[0] for f in ex.T[ty]["variants"][0]["fields"]]
    if set(fs) - set(parts): raise Unsupported("new request fields")
    st = State()
    yield "", [Ref(st.new(Adt(ty, 0, [parts[n] for n in fs])))], st, []


def reads(n):
    return lambda ex, r, a: Text(z3.String("ident")) if n == "identifier" else Abs(n, z3.StringVal(n))


TARGETS = [dict(name="request", entry=r"::decode_image_request$", args=args, spec=request, crate_contracts=CRATE,
                what="for every path starting with '/': identifier, region, size, rotation, quality and format are taken from segments 1..5 in that order, percent-decoding the identifier; the error names the first missing or invalid element; no panic")]
TARGETS += [dict(name=f"request.{n}", entry=r"\bImageRequest>?::%s$" % n, args=stored, spec=reads(n), input=lambda a: None,
                 what=f"{n}() returns the decoded {n}") for n in ("identifier",) + FIELDS]
TARGETS += [dict(name="info", entry=r"::info_request$", args=lambda ex, root: [("", [Str(z3.String("path"))], State(), [])], spec=lambda ex, r, s: ANY,
                 what="an info.json request is answered without panicking, for every path")]
