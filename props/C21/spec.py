import z3
from mirsym import *
from mirspec import *

ENTRIES = ["from_str"]
BOUND = "every combination of the markers ^, pct:, ! with 0 to 3 numbers from a 24-value vocabulary, with and without the comma"
COMMA, ZERO = strval(","), z3.FPVal(0, z3.Float32())


def pixels(ex, r, t):
    """a positive integer -> non-zero value, or the error for this text"""
    if not r.branch(parses(ex, "u32")(t)): return V("Err", V("SizeDimensionUnparsable", Text(t)))
    v = value(ex, "u32")(t)
    if not r.branch(v != 0): return V("Err", V("SizeDimensionOutOfBounds", Text(t)))
    return NZ(v)


def size(ex, r, s):
    s = s.t
    up = r.branch(z3.PrefixOf(strval("^"), s))
    if up: s = drop(s, 1)
    ok = lambda scale: V("Ok", V("Size", upscale=up, scale=scale))
    if r.branch(s == strval("max")): return ok(V("Max"))
    if r.branch(z3.PrefixOf(strval("pct:"), s)):
        t = drop(s, 4)
        if not r.branch(parses(ex, "f32")(t)): return V("Err", V("SizePercentageUnparsable", Text(t)))
        v = value(ex, "f32")(t)
        if r.branch(z3.fpGT(v, ZERO)) and r.branch(finite(v)) and (up or r.branch(z3.fpLEQ(v, z3.FPVal(100, z3.Float32())))):
            return ok(V("Percentage", v))
        return V("Err", V("SizePercentageOutOfBounds", Text(t)))
    keep = r.branch(z3.PrefixOf(strval("!"), s))
    if keep: s = drop(s, 1)
    if r.branch(s == COMMA): return V("Err", V("SizeMissingDimensions", Text(s)))
    if not r.branch(z3.Contains(s, COMMA)): return V("Err", V("SizeMissingComma", Text(s)))
    w, h = split_once(s, COMMA)
    dims = []
    for t in (w, h):
        if not keep and r.branch(t == strval("")):
            dims.append(V("None"))
            continue
        d = pixels(ex, r, t)
        if isinstance(d, V): return d
        dims.append(d if keep else V("Some", d))
    return ok(V("AspectPreserving" if keep else "Fixed", width=dims[0], height=dims[1]))


def args(ex, root): yield "", [Str(z3.String("s"))], State(), []


TARGETS = [dict(name="size", entry=r"FromStr for .*\bSize>::from_str$", args=args, spec=size,
                what="for every text: exactly the IIIF size grammar, the exact scale and up-scaling flag, the exact error otherwise, no panic")]
