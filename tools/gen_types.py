#!/usr/bin/env python3
"""Generate the schema families used by the simulator: the same family of
revisioned types as four successive builds of an application know it."""
import os

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim")
NB = 4
NEVER = None


class Ty:
    """A field type: Rust spelling and schema expression."""

    def __init__(self, rust, sc, dflt=True):
        self.rust, self.sc, self.dflt = rust, sc, dflt


def P(rust, sc, dflt=True):
    return Ty(rust, sc, dflt)


BOOL = P("bool", "Sc::Bool")
U8, U16, U32, U64, U128 = [P("u%d" % n, "Sc::U(%d)" % n) for n in (8, 16, 32, 64, 128)]
I8, I16, I32, I64, I128 = [P("i%d" % n, "Sc::I(%d)" % n) for n in (8, 16, 32, 64, 128)]
USIZE, ISIZE = P("usize", "Sc::Usize"), P("isize", "Sc::Isize")
F32, F64 = P("f32", "Sc::F32"), P("f64", "Sc::F64")
CHAR, STR = P("char", "Sc::Char"), P("String", "Sc::Str")
DUR = P("Duration", "Sc::Dur")
UUID = P("Uuid", "Sc::Uuid", False)
DEC = P("Decimal", "Sc::Decimal", False)
BYTES = P("Bytes", "Sc::Bytes", False)
DATE = P("NaiveDate", "Sc::Date", False)
HOOK = P("Hook", "Sc::Hook", False)


def Opt(t):
    return Ty("Option<%s>" % t.rust, "Sc::Opt(a(%s))" % t.sc)


def Res(t, e):
    return Ty("Result<%s, %s>" % (t.rust, e.rust), "Sc::Res(a(%s), a(%s))" % (t.sc, e.sc), False)


def Box(t):
    return Ty("Box<%s>" % t.rust, t.sc, t.dflt)


def ArcT(t):
    return Ty("Arc<%s>" % t.rust, t.sc, t.dflt)


def Vec(t):
    return Ty("Vec<%s>" % t.rust, "Sc::Vec(a(%s))" % t.sc)


def ImVec(t):
    return Ty("imbl::Vector<%s>" % t.rust, "Sc::Seq(a(%s))" % t.sc)


def _set(n, un):
    return lambda t: Ty("%s<%s>" % (n, t.rust), "Sc::Set(a(%s), %s)" % (t.sc, un))


def _map(n, un):
    return lambda k, v: Ty("%s<%s, %s>" % (n, k.rust, v.rust), "Sc::Map(a(%s), a(%s), %s)" % (k.sc, v.sc, un))


BSet, HSet = _set("BTreeSet", "false"), _set("HashSet", "true")
OSet, IHSet = _set("imbl::OrdSet", "false"), _set("imbl::HashSet", "true")
BMap, HMap = _map("BTreeMap", "false"), _map("HashMap", "true")
OMap, IHMap = _map("imbl::OrdMap", "false"), _map("imbl::HashMap", "true")


def Tup(*ts):
    return Ty("(%s,)" % ", ".join(t.rust for t in ts), "Sc::Tup(vec![%s])" % ", ".join(t.sc for t in ts),
              all(t.dflt for t in ts))


def Arr(t, n):
    return Ty("[%s; %d]" % (t.rust, n), "Sc::Arr(a(%s), %d)" % (t.sc, n))


FAMS = []
INDEX = {}


def Fam(name):
    return Ty(name, "Sc::Der(%s, b)" % ("F_" + name.upper()), False)


class F:
    def __init__(self, name, ty, start=None, end=NEVER, dfn=False, conv=None, idx=None, fixed=False, spec=False):
        self.name, self.ty, self.start, self.end = name, ty, start, end
        self.dfn, self.conv, self.idx, self.fixed, self.spec = dfn, conv, idx, fixed, spec
        if end is not NEVER and conv is None:
            self.conv = "absorb"
        if start and start > 1 and not dfn:
            assert ty.dflt, (name, "needs default_fn")

    def alive(self, r):
        return (self.start or 1) <= r and (self.end is NEVER or r < self.end)


class V:
    def __init__(self, name, shape="unit", fields=(), start=None, end=NEVER, size=None, disc=(), fname=False):
        self.name, self.shape, self.fields = name, shape, list(fields)
        self.start, self.end, self.size, self.disc, self.fname = start, end, size, disc, fname

    def alive(self, r):
        return (self.start or 1) <= r and (self.end is NEVER or r < self.end)


L, O, X = "L", "O", "X"


class Family:
    def __init__(self, name, sched, layouts, kind, members, eq=True, shape="named", split=False):
        self.name, self.sched, self.layouts, self.kind, self.members = name, sched, layouts, kind, members
        self.shape, self.eq, self.split = shape, eq, split
        assert len(sched) == NB and len(layouts) >= max(sched)
        INDEX[name] = len(FAMS)
        FAMS.append(self)


def S(name, sched, layouts, *fields, **kw):
    Family(name, sched, layouts, "struct", list(fields), **kw)


def E(name, sched, layouts, *variants, **kw):
    Family(name, sched, layouts, "enum", list(variants), **kw)


# ---------------------------------------------------------------------------
# The families.  sched = current revision at builds 0..3, layouts per revision
# (L legacy, O optimised, X optimised with an offset table).
# ---------------------------------------------------------------------------

# -- structs

S("Plain", (1, 1, 1, 1), "L",
  F("flag", BOOL), F("tiny", I8), F("num", U32), F("big", I128), F("text", STR), F("maybe", Opt(U16)),
  F("list", Vec(U64)), F("pair", Tup(U8, STR)), F("both", Res(U32, STR)))

S("Grow", (1, 2, 3, 4), "LLLL",
  F("id", U64), F("name", STR, start=1), F("extra", Opt(STR), start=2), F("list", Vec(I32), start=3),
  F("score", I16, start=3, dfn=True), F("tail", BMap(STR, U32), start=4, dfn=True), F("last", U8))

S("Shrink", (1, 2, 3, 3), "LLL",
  F("acc", U64), F("gone", STR, end=2), F("kept", U32), F("moved", Vec(STR), end=3, conv=("move", "home")),
  F("home", Vec(STR), start=3), F("late", Opt(I64), start=2, end=3), F("tail", STR))

S("Ladder", (1, 2, 3, 4), "LOXX",
  F("id", U32), F("name", STR), F("map", BMap(STR, U64), idx="map"), F("tags", Vec(STR), idx="seq"),
  F("ids", BSet(U32), idx="set"), F("note", Opt(STR), start=2, dfn=True), F("more", Vec(U8), start=3),
  F("end", I64, start=4, dfn=True))

S("Indexed", (1, 1, 2, 3), "XXX",
  F("head", U64), F("attrs", HMap(STR, I64), idx="map"), F("body", STR), F("seq", Vec(Tup(U8, STR)), idx="seq"),
  F("set", HSet(STR), idx="set"), F("later", OMap(U32, STR), start=2, idx="map"), F("opt", Opt(Box(U32)), start=3),
  F("lateset", OSet(I32), start=3, idx="set"))

S("Zigzag", (1, 2, 3, 4), "OLXO",
  F("a", U16), F("m", BMap(U64, STR), idx="map"), F("b", STR), F("s", Vec(U32), start=2, idx="seq"),
  F("c", Opt(U8), start=3), F("d", Arr(U8, 4), start=4))

S("Cut", (1, 2, 3, 3), "XXX",
  F("acc", U64), F("m", BMap(STR, U32), end=3, idx="map"), F("plain", STR, end=2), F("keep", IHMap(STR, U8), idx="map"),
  F("seq", Vec(STR), end=3, idx="seq"), F("set", BSet(STR), end=2, idx="set"), F("name", STR), F("n", U32, start=2))

S("CutOpt", (1, 2, 2, 3), "OOL",
  F("acc", U64), F("old", STR, end=2), F("m", HMap(U8, STR), end=3, idx="map"), F("n", I32),
  F("list", Vec(U16), start=2))

S("CutMix", (1, 2, 3, 4), "LOXL",
  F("acc", U64), F("a", STR, end=3), F("m", BMap(U16, U16), idx="map"), F("b", Opt(U32), end=2), F("c", STR),
  F("d", Vec(U64), start=3, end=4, conv=("move", "e")), F("e", Vec(U64), start=4))

S("Forced", (1, 1, 2, 3), "LLL",
  F("a", U32, fixed=True), F("b", Vec(U16), spec=True), F("c", I64, fixed=True), F("d", Vec(U16)),
  F("e", U128, start=2, fixed=True), F("f", Vec(F64), start=3, spec=True), F("g", Vec(BOOL), spec=True),
  F("h", I128, start=3, fixed=True), F("i", U64, fixed=True), F("j", I32, fixed=True), F("k", STR))

S("ForcedCut", (1, 2, 2, 2), "LL",
  F("acc", U64, fixed=True), F("a", Vec(I8), end=2, spec=True), F("b", U32, end=2, fixed=True), F("c", Vec(I32), spec=True),
  F("d", STR))

S("Pair", (1, 1, 2, 2), "LO", F("0", U32), F("1", STR), shape="tuple")
S("Unit", (1, 1, 1, 2), "LO", shape="unit")
S("Wide", (1, 1, 2, 2), "XX",
  *[F("w%d" % i, [U8, STR, U32, Opt(U64), Vec(U8), I16, CHAR][i % 7]) for i in range(17)],
  F("w17", STR, start=2), F("w18", U8, start=2))

S("Tree", (1, 2, 2, 3), "LLX",
  F("v", U32), F("kids", Vec(Fam("Tree"))), F("left", Opt(Box(Fam("Tree")))), F("label", STR, start=2), eq=False)

# -- enums

E("Color", (1, 1, 1, 1), "L",
  V("Red"), V("Green"), V("Named", "tuple", [F("0", STR)]), V("Rgb", "tuple", [F("0", U8), F("1", U8), F("2", U8)]),
  V("Hsl", "named", [F("h", F32), F("s", U16)]), V("Nested", "tuple", [F("0", Opt(Vec(U32)))]),
  V("One", "named", [F("x", U64)]))

E("Event", (1, 2, 3, 4), "LLLL",
  V("Acc", "tuple", [F("0", U64)]), V("Old", "tuple", [F("0", STR), F("1", U32)], end=2), V("Stay", "named", [F("x", I32)]),
  V("Fresh", "tuple", [F("0", Vec(STR))], start=2), V("Brief", "unit", start=2, end=4),
  V("Goes", "named", [F("k", STR), F("n", U16)], end=3, fname=True), V("New", "unit", start=3), V("Pay", "tuple", [F("0", Fam("Pair"))], start=4))

E("Parts", (1, 2, 3, 3), "LLL",
  V("Acc", "tuple", [F("0", U64)]), V("Var", "tuple", [F("0", U64), F("1", STR, end=2), F("2", U32, start=2)]),
  V("Rec", "named", [F("acc", U64), F("gone", Vec(U8), end=3), F("neu", Opt(STR), start=3, dfn=True), F("z", STR)]),
  V("Lone", "tuple", [F("0", U64), F("1", STR, start=2, end=3)]))

E("Adds", (1, 2, 3, 3), "LLL",
  V("First", "unit"), V("Single", "tuple", [F("0", STR, start=2)]), V("Twice", "tuple", [F("0", U32), F("1", U32, start=3, dfn=True)]),
  V("Rec", "named", [F("a", U8), F("b", Vec(U32), start=2)]), V("Later", "tuple", [F("0", U64)], start=3))

E("Disc", (1, 2, 3, 3), "LLL",
  V("Acc", "tuple", [F("0", U64)]), V("Wide", "unit", disc=[(1, 300)]), V("Huge", "tuple", [F("0", U8)], disc=[(1, 70000), (2, 251)]),
  V("Zero", "unit", disc=[(1, 0), (3, 9)]), V("Gone", "tuple", [F("0", U16)], end=3), V("Tail", "unit", start=2, disc=[(2, 4000000000)]))

E("Packed", (1, 2, 2, 3), "OOO",
  V("None", "unit", size="inline"), V("Byte", "tuple", [F("0", U8)], size="fixed(1)"),
  V("Quad", "tuple", [F("0", Arr(U8, 4))], size="fixed(4)"), V("Text", "tuple", [F("0", STR)], size="varlen"),
  V("Rec", "named", [F("a", U32), F("b", STR)], size="varlen"), V("Floaty", "tuple", [F("0", F64)], size="fixed(8)"),
  V("Late", "tuple", [F("0", Vec(U32))], size="varlen", start=2), V("Mark", "unit", size="inline", start=3),
  V("Many", "tuple", [F("0", BOOL), F("1", U8)], size="fixed(2)", start=3))

E("Mixed", (1, 2, 3, 4), "LOLO",
  V("Acc", "tuple", [F("0", U64)], size="varlen"), V("Old", "tuple", [F("0", STR)], size="varlen", end=3), V("Unit", "unit", size="inline"),
  V("Gone", "unit", size="inline", end=2), V("Keep", "named", [F("k", STR), F("v", Opt(U32))], size="varlen"),
  V("Neu", "tuple", [F("0", Arr(U8, 2))], size="fixed(2)", start=2), V("Sub", "tuple", [F("0", Fam("Indexed"))], size="varlen", start=4))

E("OptDisc", (1, 2, 3, 3), "OOO",
  V("A", "unit", size="inline", disc=[(1, 31), (2, 5)]), V("B", "tuple", [F("0", STR)], size="varlen", disc=[(1, 7)]),
  V("C", "tuple", [F("0", U8)], size="fixed(1)", disc=[(2, 30)]), V("D", "unit", size="inline", start=2), V("E", "tuple", [F("0", Vec(STR))], size="varlen", start=3))

E("LegOpt", (1, 2, 2, 2), "LO",
  V("A", "unit", size="inline", disc=[(1, 29)]), V("B", "tuple", [F("0", U32)], size="varlen", disc=[(2, 0)]),
  V("C", "named", [F("s", STR), F("t", STR)], size="varlen"))

# The optimised enum layout has no per-field evolution inside a variant: such
# histories are legal only while every change precedes the first optimised one.
E("AddsO", (1, 2, 3, 4), "LLOO",
  V("Acc", "tuple", [F("0", U64)], size="varlen"), V("First", "unit", size="inline"), V("Single", "tuple", [F("0", STR, start=2)], size="varlen"),
  V("Twice", "tuple", [F("0", U32), F("1", U32, start=2, dfn=True)], size="varlen"),
  V("Rec", "named", [F("a", U8), F("b", Vec(U32), start=2)], size="varlen"),
  V("Later", "tuple", [F("0", U64)], start=3, size="varlen"), V("Pad", "tuple", [F("0", U16)], end=4, size="varlen"),
  V("Fin", "unit", size="inline"))

E("CutsO", (1, 2, 3, 4), "LLOO",
  V("Acc", "tuple", [F("0", U64)], size="varlen"), V("Gone", "named", [F("a", STR), F("b", U8)], end=3, size="varlen", fname=True),
  V("Lone", "tuple", [F("0", U64), F("1", STR, end=2)], size="varlen"), V("Bit", "tuple", [F("0", U8)], size="fixed(1)"),
  V("Off", "unit", end=4, size="inline"), V("Rec", "named", [F("acc", U64), F("x", BMap(U8, STR), end=2), F("y", STR, start=2)], size="varlen"))

E("ForcedE", (1, 2, 3, 3), "LLL",
  V("Acc", "tuple", [F("0", U64, fixed=True)]), V("Vals", "tuple", [F("0", Vec(U16), spec=True)]), V("Neg", "tuple", [F("0", I128, fixed=True)]),
  V("Rec", "named", [F("acc", U64, fixed=True), F("b", Vec(BOOL), spec=True), F("c", STR), F("d", Vec(F32), end=3, spec=True)]),
  V("Gone", "tuple", [F("0", I32, fixed=True), F("1", Vec(U64), spec=True)], end=2), V("Late", "tuple", [F("0", U32, start=3, fixed=True)], start=2))

E("ForcedA", (1, 1, 2, 3), "LLO",
  V("Num", "tuple", [F("0", U32, fixed=True)], size="varlen"), V("Vals", "tuple", [F("0", Vec(I16), spec=True)], size="varlen"),
  V("Two", "tuple", [F("0", U64, fixed=True), F("1", STR)], size="varlen"), V("Late", "tuple", [F("0", I64, start=2, fixed=True)], size="varlen"))

S("ForcedMix", (1, 2, 3, 4), "LOXL",
  F("a", U32, fixed=True), F("b", Vec(U32), spec=True), F("m", BMap(STR, U16), idx="map"), F("c", I64, start=2, fixed=True),
  F("s", Vec(STR), start=2, idx="seq"), F("d", Vec(BOOL), start=3, spec=True), F("t", BSet(U8), start=3, idx="set"), F("z", STR, start=4, dfn=True))

S("PairX", (1, 2, 3, 3), "XXO",
  F("0", U64), F("1", STR, end=3, conv="absorb"), F("2", BMap(U32, STR), start=2, idx="map"), F("3", Vec(U8)), shape="tuple")

# -- edges of the format: revisions and variant numbers that need more than one
#    byte, full tag space, nothing inside, one thing inside

S("Aged", (249, 250, 251, 300), "L" * 300,
  F("acc", U64), F("a", STR, end=251), F("b", Opt(U32), start=250), F("c", Vec(U8), start=251, dfn=True), F("d", U16, end=300),
  F("z", STR))

S("AgedX", (250, 250, 251, 252), "L" * 250 + "OX",
  F("acc", U64), F("m", BMap(U8, STR), idx="map"), F("a", Vec(U32), end=251), F("b", STR, start=251), F("c", Opt(I64), start=252))

_K = [("unit", []), ("unit", []), ("tuple", [U8]), ("unit", []), ("named", [STR, U32]), ("unit", []), ("tuple", [Vec(U16), BOOL])]
E("Crowd", (1, 2, 3, 3), "LLL", V("Acc", "tuple", [F("0", U64)]), *[
    V("C%d" % i, _K[i % 7][0], [F(str(j) if _K[i % 7][0] == "tuple" else "f%d" % j, t) for j, t in enumerate(_K[i % 7][1])],
      start=2 if i == 77 else None, end=3 if i == 160 else NEVER) for i in range(258)])

_Q = [("unit", [], "inline"), ("tuple", [Arr(U8, 3)], "fixed(3)"), ("tuple", [STR], "varlen"), ("named", [STR, U32], "varlen")]
E("Full", (1, 2, 3, 3), "OOO", V("Acc", "tuple", [F("0", U64)], size="varlen"), *[
    V("Q%d" % i, _Q[i % 4][0], [F(str(j) if _Q[i % 4][0] == "tuple" else "f%d" % j, t) for j, t in enumerate(_Q[i % 4][1])], size=_Q[i % 4][2],
      start=2 if i in (31, 32) else 3 if i == 33 else None, end=2 if i in (3, 9) else 3 if i == 14 else NEVER) for i in range(34)])

S("Hollow", (1, 2, 3, 3), "LOX")
S("Lone", (1, 2, 3, 3), "LXO", F("0", Vec(STR)), shape="tuple")
S("Late1", (1, 2, 3, 4), "LOXX", F("m", BMap(STR, U8), start=3, idx="map"), F("n", Opt(U16), start=4))
E("Solo", (1, 2, 2, 2), "LO", V("It", "tuple", [F("0", Box(Fam("Lone")))], size="varlen"))
E("Hush", (1, 2, 3, 3), "LLO", V("A", "named", [], size="inline"), V("B", "tuple", [], size="inline"), V("C", "unit", start=2, size="inline"))

# -- compositions

S("Doc", (1, 2, 2, 3), "LLX",
  F("id", UUID), F("grow", Fam("Grow")), F("event", Fam("Event")), F("packed", Vec(Fam("Packed"))),
  F("ladder", Opt(Fam("Ladder")), start=2), F("price", DEC), F("by", BMap(STR, Fam("Shrink"))),
  F("child", Opt(Box(Fam("Doc")))), F("when", DATE, start=3, dfn=True), eq=False)

S("Store", (1, 1, 2, 3), "XXX",
  F("rows", BMap(STR, Fam("Indexed")), idx="map"), F("log", Vec(Fam("Mixed")), idx="seq"), F("keys", HSet(U64), idx="set"),
  F("zig", Fam("Zigzag")), F("cuts", ImVec(Fam("Cut")), start=2, idx="seq"), F("hooks", OMap(U16, Fam("Parts")), start=3, idx="map"),
  F("hook", HOOK), eq=False)

E("Value", (1, 2, 3, 3), "LLO",
  V("Acc", "tuple", [F("0", U64)], size="varlen"), V("Null", "unit", size="inline"), V("Num", "tuple", [F("0", I64)], size="varlen"),
  V("List", "tuple", [F("0", Vec(Fam("Value")))], size="varlen"), V("Obj", "tuple", [F("0", BMap(STR, Fam("Value")))], size="varlen"),
  V("Tree", "tuple", [F("0", Box(Fam("Tree")))], size="varlen", start=2), V("Dead", "named", [F("x", Opt(Box(Fam("Value")))), F("y", STR)], end=3, fname=True),
  V("Blob", "tuple", [F("0", BYTES)], size="varlen", start=2), V("Disc", "tuple", [F("0", Fam("Disc"))], size="varlen", start=3), eq=False)

S("Frame", (1, 2, 3, 3), "OXX",
  F("acc", U64), F("inner", Fam("CutMix")), F("vals", Vec(Fam("Value"))), F("old", Fam("Adds"), end=3), F("m", HMap(STR, Fam("OptDisc")), idx="map"),
  F("hook", HOOK), F("res", Res(Fam("Color"), Fam("LegOpt")), start=2, dfn=True), eq=False)

S("Still", (1, 1, 1, 1), "L",
  F("grow", Fam("Grow")), F("cut", Fam("Cut")), F("mixed", Vec(Fam("Mixed"))), F("event", Opt(Fam("Event"))), F("frame", Box(Fam("Frame"))),
  F("forced", Fam("ForcedCut")), F("tail", U32), eq=False)

S("StillX", (1, 1, 1, 1), "X",
  F("grow", Fam("Grow")), F("rows", BMap(U8, Fam("CutOpt")), idx="map"), F("mixed", ImVec(Fam("Mixed")), idx="seq"), F("doc", Opt(Fam("Forced"))),
  F("tail", STR), eq=False)

# -- one type to write with, another to read with (serialize = false,
#    deserialize = false)

S("GrowT", (1, 2, 3, 4), "LLLL",
  F("id", U64), F("name", STR, start=1), F("extra", Opt(STR), start=2), F("score", I16, start=3, dfn=True),
  F("tail", BMap(STR, U32), start=4, dfn=True), F("raw", U32, fixed=True), F("last", Vec(U16), spec=True), split=True)

S("LadderT", (1, 2, 3, 4), "LOXX",
  F("id", U32), F("map", BMap(STR, U64), idx="map"), F("tags", Vec(STR), idx="seq"),
  F("ids", BSet(U32), start=2, idx="set"), F("note", Opt(STR), start=3, dfn=True), F("end", I64, start=4), split=True)

E("AddsT", (1, 2, 3, 3), "LLL",
  V("First", "unit"), V("Single", "tuple", [F("0", STR)], disc=[(2, 300)]), V("Rec", "named", [F("a", U8), F("b", Vec(U32), start=2, dfn=True)]),
  V("Later", "tuple", [F("0", U64), F("1", STR)], start=3), split=True)

E("PackedT", (1, 2, 2, 3), "LOO",
  V("None", "unit", size="inline"), V("Byte", "tuple", [F("0", U8)], size="fixed(1)"), V("Text", "tuple", [F("0", STR)], size="varlen"),
  V("Rec", "named", [F("a", U32), F("b", STR)], size="varlen"), V("Late", "tuple", [F("0", Vec(U32))], size="varlen", start=2),
  V("Mark", "unit", size="inline", start=3), split=True)

S("Halves", (1, 2, 2, 3), "LXX",
  F("acc", U64), F("grow", Fam("GrowT")), F("rows", BMap(STR, Fam("LadderT")), idx="map"), F("log", Vec(Fam("PackedT")), idx="seq"),
  F("adds", Opt(Box(Fam("AddsT"))), start=2), F("gone", Fam("PackedT"), end=3))

# ---------------------------------------------------------------------------

site = [0]


def next_site():
    site[0] += 1
    return site[0]


for fam in FAMS:
    if fam.kind == "struct":
        for f in fam.members:
            f.site = next_site()
    else:
        for v in fam.members:
            v.site = next_site()
            for f in v.fields:
                f.site = next_site()

USE = """use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use bytes::Bytes;
use chrono::NaiveDate;
use rust_decimal::Decimal;
use uuid::Uuid;
use revision::{Error, revisioned};
use core_sim::imp::Hook;
use core_sim::val::{absorb, digest};
use core_sim::walkers::Sim;
use core_sim::hooks::{cb, def_value};
"""


def rev_attr(fam, b):
    cur = fam.sched[b]
    if all(l == "L" for l in fam.layouts[:cur]):
        return "revision = %d" % cur
    m = {"L": "", "O": ", optimised", "X": ", optimised, indexed_struct"}
    l = ["revision(%d%s)" % (r, m[fam.layouts[r - 1]]) for r in range(1, cur + 1)]
    # entries may come in any order
    return ", ".join(reversed(l) if INDEX[fam.name] % 3 == 1 else l)


def head(fam, b, derives, extra=""):
    """Both places the history may be given in."""
    h = rev_attr(fam, b)
    if INDEX[fam.name] % 3 == 2 and not extra:
        return "#[revisioned()]\n#[derive(%s)]\n#[revision(%s)]" % (derives, h)
    return "#[revisioned(%s%s)]\n#[derive(%s)]" % (h, extra, derives)


def writer(fam, out, decl, arms):
    """The write-only half of a type whose own half is read-only."""
    out.append(decl)
    out.append("impl revision::SerializeRevisioned for %s {\n\tfn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {\n\t\tlet h = %s;\n\t\trevision::SerializeRevisioned::serialize_revisioned(&h, w)\n\t}\n}" % (fam.name, arms))


def fattr(f, cur):
    o = []
    if f.start:
        o.append("start = %d" % f.start)
    if f.end is not NEVER and f.end <= cur:
        o.append("end = %d" % f.end)
        o.append('convert_fn = "cv_%d"' % f.site)
    if f.dfn:
        o.append('default_fn = "df_%d"' % f.site)
    if f.idx:
        o.append("indexed_" + f.idx)
    if f.fixed:
        o.append("fixed")
    if f.spec:
        o.append("specialised")
    return "#[revision(%s)] " % ", ".join(o) if o else ""


def access(owner, f, pos):
    return "%s.%s" % (owner, f)


def conv_fn(f, target, fields, cur, tuple_):
    """convert function of a removed field; `target` spells the receiver."""
    live = [x for x in fields if x.alive(cur)]

    def nm(x):
        return str(live.index(x)) if tuple_ else x.name

    recv = "&mut self" if target is None else "s: &mut %s" % target
    me = "self" if target is None else "s"
    if f.conv == "absorb":
        body = "%s.%s = absorb(%s.%s, digest(&<%s as Sim>::schema(), &v.to_val()), rev, %d);" % (
            me, nm(live[0]), me, nm(live[0]), f.ty.rust, f.site)
    else:
        to = [x for x in fields if x.name == f.conv[1]][0]
        body = "let _ = rev; %s.%s = v;" % (me, nm(to))
    return "fn cv_%d(%s, rev: u16, v: %s) -> Result<(), Error> { cb(%d)?; %s Ok(()) }" % (f.site, recv, f.ty.rust, f.site, body)


def default_fn(f):
    return "fn df_%d(rev: u16) -> Result<%s, Error> { cb(%d)?; Ok(def_value(%d, rev)) }" % (f.site, f.ty.rust, f.site, f.site)


def gen_struct(fam, b, out):
    cur = fam.sched[b]
    known = [f for f in fam.members if (f.start or 1) <= cur]
    live = [f for f in known if f.alive(cur)]
    t = fam.name
    derives = "Debug, Clone" + (", PartialEq" if fam.eq else "")
    out.append(head(fam, b, derives, ", serialize = false" if fam.split else ""))
    if fam.split:
        assert fam.shape == "named" and live == known
        w = ["#[revisioned(%s, deserialize = false)]" % rev_attr(fam, b), "pub struct %sW {" % t]
        w += ["\t%spub %s: %s," % (fattr(f, cur), f.name, f.ty.rust) for f in known] + ["}"]
        d = [default_fn(f) for f in known if f.dfn]
        if d:
            w.append("impl %sW {\n\t%s\n}" % (t, "\n\t".join(d)))
        half = "\n".join(w)
    if fam.shape == "unit":
        out.append("pub struct %s;" % t)
    elif fam.shape == "tuple":
        out.append("pub struct %s(%s);" % (t, ", ".join("%spub %s" % (fattr(f, cur), f.ty.rust) for f in known)))
    else:
        out.append("pub struct %s {" % t)
        for f in known:
            out.append("\t%spub %s: %s," % (fattr(f, cur), f.name, f.ty.rust))
        out.append("}")
    if fam.split:
        writer(fam, out, half, "%sW { %s }" % (t, ", ".join("%s: self.%s.clone()" % (f.name, f.name) for f in known)))
    fns = []
    for f in known:
        if f.dfn:
            fns.append(default_fn(f))
        if f.end is not NEVER and f.end <= cur:
            fns.append(conv_fn(f, None, known, cur, fam.shape == "tuple"))
    if fns:
        out.append("impl %s {\n\t%s\n}" % (t, "\n\t".join(fns)))
    rows = []
    for i, f in enumerate(live):
        base = "field_%d" % i if fam.shape == "tuple" else f.name
        fld = str(i) if fam.shape == "tuple" else f.name
        kind = f.idx if f.idx else "plain"
        rows.append("\t(%d, %s, %s, %s, decode_%s, skip_%s, walk_%s, into_walk_%s, into_%s_bytes)," % (
            i, fld, f.ty.rust, kind, base, base, base, base, base))
    out.append("core_sim::sim_struct!(%s, %sWalker, %d, %d, [\n%s\n]);" % (t, t, INDEX[t], b, "\n".join(rows)))


def snake(s):
    return "".join(("_" if c.isupper() and i else "") + c.lower() for i, c in enumerate(s))


def gen_enum(fam, b, out):
    cur = fam.sched[b]
    t = fam.name
    known = [v for v in fam.members if (v.start or 1) <= cur]
    derives = "Debug, Clone" + (", PartialEq" if fam.eq else "")
    out.append("%s\npub enum %s {" % (head(fam, b, derives, ", serialize = false" if fam.split else ""), t))
    fns = []
    rows = []
    lines = []
    arms = []
    for v in known:
        o = []
        if v.start:
            o.append("start = %d" % v.start)
        ended = v.end is not NEVER and v.end <= cur
        if ended:
            o.append("end = %d" % v.end)
            o.append('convert_fn = "cv_%d"' % v.site)
        fields_name = "%s%sFields" % (t, v.name)
        if v.fname:
            fields_name = "Old%s%s" % (t, v.name)
            o.append('fields_name = "%s"' % fields_name)
        if v.size and "O" in fam.layouts[:cur]:
            o.append('size = "%s"' % v.size)
        for r, d in v.disc:
            if r <= cur:
                o.append("override(revision = %d, discriminant = %d)" % (r, d))
        at = "\t#[revision(%s)]\n" % ", ".join(o) if o else ""
        kf = [f for f in v.fields if (f.start or 1) <= cur]
        live = [f for f in kf if f.alive(cur)]
        if v.shape == "unit":
            body = ""
        elif v.shape == "tuple":
            body = "(%s)" % ", ".join(fattr(f, cur) + f.ty.rust for f in kf)
        else:
            body = " { %s }" % ", ".join("%s%s: %s" % (fattr(f, cur), f.name, f.ty.rust) for f in kf)
        out.append("%s\t%s%s," % (at, v.name, body))
        lines.append(out[-1])
        if fam.split:
            assert live == kf
            nm = ["a%d" % i for i in range(len(kf))] if v.shape == "tuple" else [f.name for f in kf]
            if v.shape == "unit":
                arms.append("%s::%s => %sW::%s" % (t, v.name, t, v.name))
            elif v.shape == "tuple":
                arms.append("%s::%s(%s) => %sW::%s(%s)" % (t, v.name, ", ".join(nm), t, v.name, ", ".join(n + ".clone()" for n in nm)))
            else:
                arms.append("%s::%s { %s } => %sW::%s { %s }" % (t, v.name, ", ".join(nm), t, v.name, ", ".join("%s: %s.clone()" % (n, n) for n in nm)))
        for f in kf:
            if f.dfn:
                fns.append(default_fn(f))
            if f.end is not NEVER and f.end <= cur:
                fns.append(conv_fn(f, fields_name, kf, cur, v.shape == "tuple"))
        if ended:
            b_ = ["let mut acc = %du64;" % v.site]
            for i, f in enumerate(live):
                nm = str(i) if v.shape == "tuple" else f.name
                b_.append("acc = absorb(acc, digest(&<%s as Sim>::schema(), &f.%s.to_val()), rev, %d);" % (f.ty.rust, nm, f.site))
            if not live:
                b_.append("let _ = &f; let _ = &mut acc;")
            fns.append("fn cv_%d(f: %s, rev: u16) -> Result<Self, Error> { cb(%d)?; %s Ok(%s::Acc(absorb(acc, 0, rev, %d))) }" % (
                v.site, fields_name, v.site, " ".join(b_), t, v.site))
            continue
        gi = fam.members.index(v)
        sn = snake(v.name)
        if v.shape == "unit":
            rows.append("\t(%d, %s, is_%s, unit (into_%s, decode_%s))," % (gi, v.name, sn, sn, sn))
        elif v.shape == "tuple" and len(live) == 1:
            rows.append("\t(%d, %s, is_%s, single (%s, into_%s, decode_%s, %s_view, tuple))," % (gi, v.name, sn, live[0].ty.rust, sn, sn, sn))
        else:
            names = ["a%d" % i for i in range(len(live))] if v.shape == "tuple" else [f.name for f in live]
            rows.append("\t(%d, %s, is_%s, multi (%s_view, %s, [%s]))," % (
                gi, v.name, sn, sn, v.shape, ", ".join("(%d, %s, %s)" % (i, n, f.ty.rust) for i, (n, f) in enumerate(zip(names, live)))))
    out.append("}")
    if fam.split:
        w = ["#[revisioned(%s, deserialize = false)]\npub enum %sW {" % (rev_attr(fam, b), t)] + lines + ["}"]
        if fns:
            w.append("impl %sW {\n\t%s\n}" % (t, "\n\t".join(fns)))
        writer(fam, out, "\n".join(w), "match self { %s }" % ", ".join(arms))
    if fns:
        out.append("impl %s {\n\t%s\n}" % (t, "\n\t".join(fns)))
    out.append("core_sim::sim_enum!(%s, %d, %d, [\n%s\n]);" % (t, INDEX[t], b, "\n".join(rows)))


def gfield(f, fields):
    conv = "None"
    if f.conv == "absorb":
        conv = "Some(Conv::Absorb)"
    elif f.conv:
        conv = "Some(Conv::Move(%d))" % [x.name for x in fields].index(f.conv[1])
    idx = {None: "No", "map": "Map", "seq": "Seq", "set": "Set"}[f.idx]
    return "GField { name: \"%s\", sc: |b| { let _ = b; %s }, start: %d, end: %s, has_default_fn: %s, site: %d, conv: %s, idx: Idx::%s, fixed: %s, specialised: %s }" % (
        f.name, f.ty.sc, f.start or 1, "NEVER" if f.end is NEVER else f.end, str(f.dfn).lower(), f.site, conv, idx,
        str(f.fixed).lower(), str(f.spec).lower())


def gen_fams():
    o = ["// Generated by tools/gen_types.py.", "use crate::val::*;", ""]
    for f in FAMS:
        o.append("pub const F_%s: usize = %d;" % (f.name.upper(), INDEX[f.name]))
    o.append("\npub static FAMS: &[Fam] = &[")
    for f in FAMS:
        lay = ", ".join({"L": "Lay::Legacy", "O": "Lay::Opt", "X": "Lay::OptIdx"}[l] for l in f.layouts)
        o.append("\tFam { name: \"%s\", sched: &[%s], layouts: &[%s]," % (f.name, ", ".join(map(str, f.sched)), lay))
        if f.kind == "struct":
            o.append("\t\tkind: GKind::Struct(&[")
            for x in f.members:
                o.append("\t\t\t%s," % gfield(x, f.members))
            o.append("\t\t]) },")
        else:
            o.append("\t\tkind: GKind::Enum(&[")
            for v in f.members:
                size = "Size::No"
                if v.size == "inline":
                    size = "Size::Inline"
                elif v.size == "varlen":
                    size = "Size::Varlen"
                elif v.size:
                    size = "Size::Fixed(%s)" % v.size[6:-1]
                o.append("\t\t\tGVariant { name: \"%s\", start: %d, end: %s, site: %d, size: %s, disc: &[%s], fields: &[" % (
                    v.name, v.start or 1, "NEVER" if v.end is NEVER else v.end, v.site, size, ", ".join("(%d, %d)" % d for d in v.disc)))
                for x in v.fields:
                    o.append("\t\t\t\t%s," % gfield(x, v.fields))
                o.append("\t\t\t] },")
            o.append("\t\t]) },")
    o.append("];")
    return "\n".join(o) + "\n"


def main():
    with open(os.path.join(OUT, "core/src/types.rs"), "w") as fh:
        fh.write(gen_fams())
    for b in range(NB):
        out = ["// Generated by tools/gen_types.py.", "#![allow(unused_imports, dead_code, private_interfaces, clippy::all)]", USE]
        for fam in FAMS:
            (gen_struct if fam.kind == "struct" else gen_enum)(fam, b, out)
            out.append("")
        out.append("pub fn types(o: &mut Vec<core_sim::dynt::Entry>) {")
        for fam in FAMS:
            out.append("\tcore_sim::dynt::fam::<%s>(o, \"%s\", %d, %d);" % (fam.name, fam.name, INDEX[fam.name], b))
        out.append("}")
        with open(os.path.join(OUT, "b%d/src/lib.rs" % b), "w") as fh:
            fh.write("\n".join(out) + "\n")
    print(len(FAMS), "families,", site[0], "sites")


main()
