import z3
from mirsym import *
from mirspec import *

ENTRIES = ["from_str"]
BOUND = "every selector list of 0 to 6 numbers from a 20-value vocabulary, with and without the percentage prefix"
COMMA = strval(",")


def selectors(ex, r, text, n, valid, bad_bounds):
    """four comma separated numbers, judged left to right -> values or an error expectation"""
    rest, more, vals = text, True, []
    for i in range(4):
        if not more:
            return V("Err", V("RegionSelectorCount", Text(text)))
        if r.branch(z3.Contains(rest, COMMA)):
            piece, rest = split_once(rest, COMMA)
        else:
            piece, more = rest, False
        if not r.branch(parses(ex, n)(piece)):
            return V("Err", V("RegionSelectorUnparsable", input=Text(piece), index=i))
        v = value(ex, n)(piece)
        if not all(r.branch(c) for c in valid(v, i)):
            return V("Err", V(bad_bounds, input=Text(shown(ex, n)(v)), index=i))
        vals.append(v)
    if more:
        return V("Err", V("RegionSelectorCount", Text(text)))
    return vals


def region(ex, r, s):
    s = s.t
    if r.branch(s == strval("full")): return V("Ok", V("Full"))
    if r.branch(s == strval("square")): return V("Ok", V("Square"))
    if r.branch(z3.PrefixOf(strval("pct:"), s)):
        x = selectors(ex, r, drop(s, 4), "f32", lambda v, i: (c for c in (z3.fpGT(v, z3.FPVal(0, z3.Float32())), finite(v))), "RegionPercentageOutOfBounds")
        kind = "Percentage"
    else:
        x = selectors(ex, r, s, "u32", lambda v, i: () if i < 2 else (v != 0,), "RegionSelectorOutOfBounds")
        kind = "Absolute"
    if isinstance(x, V): return x
    return V("Ok", V(kind, x=x[0], y=x[1], width=x[2], height=x[3]))


def args(ex, root): yield "", [Str(z3.String("s"))], State(), []


TARGETS = [dict(name="region", entry=r"FromStr for .*\bRegion>::from_str$", args=args, spec=region,
                what="for every text: exactly the IIIF region grammar, exact selector values in x,y,width,height order, exact error otherwise, no panic")]
