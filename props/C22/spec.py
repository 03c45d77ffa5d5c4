import z3
from mirsym import *
from mirspec import *

ENTRIES = ["from_str", "::mime"]
BOUND = "rotations: 3 marker prefixes x 30 numbers; qualities and formats: the vocabularies, their prefixes, extensions and case variants"
F = z3.Float32()


def rotation(ex, r, s):
    s = s.t
    mirror = r.branch(z3.PrefixOf(strval("!"), s))
    if mirror: s = drop(s, 1)
    if not r.branch(parses(ex, "f32")(s)): return V("Err", V("RotationAngleUnparsable", Text(s)))
    v = value(ex, "f32")(s)
    if r.branch(z3.fpLEQ(z3.FPVal(0, F), v)) and r.branch(z3.fpLEQ(v, z3.FPVal(360, F))):
        return V("Ok", V("Rotation", mirror=mirror, degrees=v))
    return V("Err", V("RotationOutOfBounds", Text(s)))


def words(table, err):
    def spec(ex, r, s):
        for w, v in table.items():
            if r.branch(s.t == strval(w)): return V("Ok", V(v))
        return V("Err", V(err, Text(s.t)))
    return spec


def text(ex, root): yield "", [Str(z3.String("s"))], State(), []


MIME = {"Jpg": "image/jpeg", "Tif": "image/tiff", "Png": "image/png", "Gif": "image/gif", "Jp2": "image/jp2",
        "Pdf": "application/pdf", "Webp": "image/webp"}


def formats(ex, root):
    ty = ex.T[ex.I[root]["body"]["locals"][1]]["of"]
    vs = ex.T[ty]["variants"]
    if {v["name"] for v in vs} != set(MIME): raise Unsupported("format vocabulary changed")
    for n, v in enumerate(vs):
        st = State()
        yield v["name"], [Ref(st.new(Adt(ty, n, ())))], st, []


def mime(ex, r, ref):
    # the variant is concrete on every path
    return Text(MIME[r.label])


TARGETS = [
    dict(name="rotation", entry=r"FromStr for .*\bRotation>::from_str$", args=text, spec=rotation,
         what="for every text: optional `!`, then a number in [0, 360]; exact degrees and mirror flag, exact error otherwise, no panic"),
    dict(name="quality", entry=r"FromStr for .*\bQuality>::from_str$", args=text,
         spec=words({"color": "Color", "gray": "Gray", "bitonal": "Bitonal", "default": "Default"}, "UnrecognisedQuality"),
         what="for every text: exactly the four IIIF qualities, error with the text otherwise"),
    dict(name="format", entry=r"FromStr for .*\bFormat>::from_str$", args=text,
         spec=words({"jpg": "Jpg", "tif": "Tif", "png": "Png", "gif": "Gif", "jp2": "Jp2", "pdf": "Pdf", "webp": "Webp"}, "UnrecognisedFormat"),
         what="for every text: exactly the seven IIIF formats, error with the text otherwise"),
    dict(name="mime", entry=r"\bFormat>?::mime$", args=formats, spec=mime, input=lambda a: None,
         what="each format's registered media type"),
]
