"""C10: PVL values become the Python values they denote."""
from symex.api import Harness

PROPERTY = "C10"
META = dict(
    title="PVL values become the Python values they denote",
    statement="In a PDS3 label, a value that is a decimal integer becomes that int, a decimal real (with or without exponent) that float, a based integer such as 16#1F# that int, a quoted text string its characters between the quotes, a quantity such as 1.5E+3 <KM> a dict of the number under 'value' and the units under 'units', a parenthesised sequence the tuple and a braced set the set of its elements' values; identifiers, dates and times stay the text they are. Values that continue on following lines are read with the line break and surrounding blanks as one space.",
    quantifier="all digit strings, signs, exponents, string contents and units of the given lengths",
    why="Parsing leans on Python's own literal grammar plus regular expressions and fallbacks; which branch a value takes depends on its characters, and tests only sample a few values.",
    files=["pdr/parselabel/pds3.py"],
    mechanism=[("literalisation", "pdr/parselabel/pds3.py:literalize_pvl"),
               ("quantities", "pdr/parselabel/pds3.py:parse_pvl_quantity_statement"),
               ("based integers", "pdr/parselabel/pds3.py:parse_non_base_10"),
               ("other collections", "pdr/parselabel/pds3.py:parse_unusual_collection"),
               ("multi-line values", "pdr/parselabel/pds3.py:chunk_statements")],
    note="Characters symbolic, lengths bounded (numbers up to 12 digits, exponents 1-2 digits, strings up to 10 characters, collections up to 3 elements). Outside: text containing '\"', backslash, '=' or '/*'; identifiers starting with a digit other than dates and times; leading zeros; commas inside quoted strings of a sequence that also holds quantities.",
)

DIG = "0123456789"
LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
TEXT = "".join(chr(c) for c in range(32, 127) if chr(c) not in '"\\=/')
BLANK = " \t"


def load(sx, *parts):
    from pdr.parselabel.pds3 import parse_pvl
    text = "A = 1\nKEYWORD_1 = "
    for p in parts:
        text = text + p
    out = sx.run(parse_pvl, text + "\nZ = 2\nEND\n")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None, False
    label = out.value[0]
    sx.check(label["A"] == 1 and label["Z"] == 2, "neighbouring statements")
    return label["KEYWORD_1"], True


def natural(sx, name, n):
    """n digits, no leading zero"""
    s = sx.str(name, n, DIG)
    if n > 1:
        sx.assume(s[0] != "0")
    return s


def integer(sx, n):
    sign = sx.choice("sign", ["", "-", "+"])
    s = sign + natural(sx, "d", n)
    v, ok = load(sx, s)
    if ok:
        sx.check(sx.is_int(v), "is an int")
        sx.check(v == sx.int_of(s), "integer value")


def real_text(sx, name, a, b, exp):
    """text of a real: a digits, point, b digits, exponent letters/digits"""
    s = sx.str(name + "a", a, DIG) + "." + sx.str(name + "b", b, DIG)
    if exp:
        s = s + exp[0] + exp[1] + sx.str(name + "e", exp[2], "0123")
    return s


EXPS = [None, ("e", "", 1), ("E", "-", 2), ("e", "+", 1), ("E", "", 2)]


def real(sx, a, b):
    sign = sx.choice("sign", ["", "-", "+"])
    exp = sx.choice("exp", EXPS)
    s = sign + real_text(sx, "r", a, b, exp)
    v, ok = load(sx, s)
    if ok:
        sx.check(sx.is_float(v), "is a float")
        sx.check(v == sx.float_of(s), "real value")


def quoted(sx, n, q='"'):
    s = sx.str("s", n, TEXT if q == '"' else TEXT.replace("'", ""))
    v, ok = load(sx, q, s, q)
    if ok:
        sx.check(sx.is_str(v), "is a str")
        sx.check(v == s, "characters of the string")


def word(sx, n, first=LET, rest=LET + DIG + "_-.:/"):
    s = sx.str("s0", 1, first) + sx.str("s", n - 1, rest)
    sx.assume(sx.and_(s != "True", s != "None", s != "False"))
    v, ok = load(sx, s)
    if ok:
        sx.check(sx.is_str(v), "is a str")
        sx.check(v == s, "identifier unchanged")


DATES = ["dddd-dd-dd", "dddd-ddd", "dddd-dd-ddTdd:dd:dd", "dd:dd:dd",
         "dddd-dddTdd:dd:dd.ddd", "dddd-dd-ddTdd:dd:ddZ", "dddd-ddTdd:dd"]


def date(sx):
    form = sx.choice("form", DATES)
    s, k = "", 0
    for c in form:
        if c == "d":
            s = s + sx.str(f"d{k}", 1, DIG)
            k += 1
        else:
            s = s + c
    v, ok = load(sx, s)
    if ok:
        sx.check(sx.is_str(v), "is a str")
        sx.check(v == s, "date unchanged")


BASES = {2: "01", 8: "01234567", 16: DIG + "ABCDEFabcdef", 10: DIG}


def based(sx, n):
    base = sx.choice("base", [2, 8, 16, 10])
    neg = sx.choice("neg", ["", "-"])
    s = sx.str("d", n, BASES[base])
    v, ok = load(sx, f"{base}#", neg, s, "#")
    if ok:
        sx.check(sx.is_int(v), "is an int")
        want = sx.int_of(s, base)
        sx.check(v == (-want if neg else want), "value of based integer")


def units(sx, n):
    return sx.str("u0", 1, LET) + sx.str("u", n - 1, LET + "^_-*.")


def quantity(sx, kind, n):
    sign = sx.choice("sign", ["", "-"])
    if kind == "int":
        num = natural(sx, "d", 3)
    else:
        num = real_text(sx, "r", 1, 2, sx.choice("exp", EXPS))
    gap = sx.choice("gap", ["", " ", "  "])
    u = units(sx, n)
    sx.assume(sx.and_(u != "True", u != "None", u != "False", u != "set"))
    v, ok = load(sx, sign, num, gap, "<", u, ">")
    if not ok:
        return
    sx.check(isinstance(v, dict) and set(v) == {"value", "units"}, "is a quantity")
    want = sx.int_of(num) if kind == "int" else sx.float_of(num)
    if sign:
        want = -want
    sx.check(v["value"] == want, "value of quantity")
    sx.check(sx.is_int(v["value"]) if kind == "int" else
             sx.is_float(v["value"]), "type of quantity")
    sx.check(v["units"] == u, "units of quantity")


def element(sx, kind, i):
    """(text, value)"""
    if kind == "int":
        s = natural(sx, f"i{i}", 2)
        return s, sx.int_of(s)
    if kind == "real":
        s = real_text(sx, f"r{i}", 1, 1, None)
        return s, sx.float_of(s)
    if kind == "str":
        s = sx.str(f"s{i}", 3, TEXT)
        return '"' + s + '"', s
    if kind == "word":
        s = sx.str(f"w{i}", 1, LET) + sx.str(f"v{i}", 2, LET + DIG + "_")
        return s, s
    if kind == "quantity":
        s = natural(sx, f"q{i}", 2)
        u = sx.str(f"u{i}", 2, LET)
        return s + " <" + u + ">", {"value": sx.int_of(s), "units": u}
    if kind == "based":
        s = sx.str(f"b{i}", 3, "01")
        return "2#" + s + "#", sx.int_of(s, 2)
    if kind == "file":
        s = sx.str(f"f{i}", 3, LET + DIG + "_") + "." + sx.str(f"g{i}", 3, LET)
        return '"' + s + '"', s


def same(sx, v, want):
    if isinstance(want, dict):
        return isinstance(v, dict) and set(v) == set(want) and sx.and_(
            *[v[k] == want[k] for k in want])
    return v == want


def collection(sx, kinds, set_=False):
    els = [element(sx, k, i) for i, k in enumerate(kinds)]
    sep = sx.choice("sep", [",", ", ", " , ", ",\n    "])
    text = els[0][0]
    for t, _ in els[1:]:
        text = text + sep + t
    v, ok = load(sx, "{" if set_ else "(", text, "}" if set_ else ")")
    if not ok:
        return
    if set_:
        sx.check(sx.same_set(v, [w for _, w in els]), "elements of the set")
        return
    sx.check(isinstance(v, tuple) and len(v) == len(els), "is a tuple")
    sx.check(sx.and_(*[same(sx, x, w) for x, (_, w) in zip(v, els)]),
             "elements of the sequence")


def multiline(sx, n):
    parts = []
    for i in range(n):
        s = sx.str(f"s{i}", 3, LET.lower() + DIG + ",.()-")
        parts.append(s)
    indent = sx.choice("indent", ["", "   ", "\t"])
    eol = sx.choice("eol", ["\n", "\r\n", "  \n"])
    text, want = parts[0], parts[0]
    for p in parts[1:]:
        text = text + eol + indent + p
        want = want + " " + p
    v, ok = load(sx, '"', text, '"')
    if ok:
        sx.check(v == want, "text of several lines")


F = ["parse_pvl", "literalize_pvl", "parse_pvl_quantity_statement",
     "parse_pvl_quantity_object", "parse_non_base_10", "chunk_statements",
     "parse_unusual_collection"]


def H(name, fn, bounds, **params):
    return Harness(name, fn, F, bounds, ["ast.literal_eval -> reference grammar over symbolic text, real parser where it may differ"],
                   params=params)


HARNESSES = (
    [H(f"integer_{n}", integer, f"{n} symbolic digits", n=n) for n in (1, 2, 6, 12)]
    + [H(f"real_{a}_{b}", real, f"{a}+{b} digits, exponent 1-2 digits", a=a, b=b)
       for a, b in ((1, 1), (0, 3), (4, 0), (3, 5))]
    + [H(f"quoted_{n}", quoted, f"{n} characters", n=n) for n in (0, 1, 2, 5, 10)]
    + [H("single_quoted", quoted, "5 characters", n=5, q="'")]
    + [H(f"word_{n}", word, f"{n} characters", n=n) for n in (1, 2, 4, 6)]
    + [H("date", date, "all digits of 7 formats")]
    + [H(f"based_{n}", based, f"{n} digits", n=n) for n in (1, 2, 4)]
    + [H("quantity_int", quantity, "3 digits, 4 unit characters", kind="int", n=4),
       H("quantity_real", quantity, "3 digits, 2 unit characters", kind="real", n=2)]
    + [H("sequence_" + "_".join(k), collection, "2-3 elements", kinds=k) for k in (
        ("int", "int", "int"), ("real", "int"), ("str", "str"), ("word", "word"),
        ("quantity", "quantity"), ("file", "quantity"), ("file", "int"),
        ("based", "based", "based"))]
    + [H("set_" + "_".join(k), collection, "2 elements", kinds=k, set_=True)
       for k in (("int", "int"), ("str", "str"), ("word", "word"), ("based", "based"))]
    + [H(f"multiline_{n}", multiline, f"{n} lines of 3 characters", n=n) for n in (2, 3)]
)
