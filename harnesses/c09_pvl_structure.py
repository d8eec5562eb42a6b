"""C09: PVL labels keep every statement, in its block, in order."""
from symex.api import Harness

PROPERTY = "C09"
META = dict(
    title="Parsed labels hold every statement, in its block and in order",
    statement="Parsing a PDS3 label gives a nested mapping in which every 'KEYWORD = value' statement is present exactly once, in the innermost OBJECT or GROUP that is open at that line and in the order of the label; repeated keywords are all kept. An OBJECT or GROUP (also BEGIN_OBJECT, BEGIN_GROUP) becomes a nested mapping under its name at its place, closed by END_OBJECT or END_GROUP with or without a name. Indentation, blanks around '=', blank lines, line endings and comments change nothing. The flat parameter list has one entry per statement and block. Data pointers that occur several times, and their object definitions, are told apart by _0, _1, ... in label order; everything else keeps its name.",
    quantifier="all keyword and block names (including coinciding ones) and values, comment contents, layouts, and the listed nesting shapes",
    why="Whether a line starts a statement, opens or closes a block is decided by heuristics on its characters; a keyword that merely looks like a block keyword, or equals another, shows only for particular names.",
    files=["pdr/parselabel/pds3.py"],
    mechanism=[("splitting into statements", "pdr/parselabel/pds3.py:chunk_statements"),
               ("nesting", "pdr/parselabel/pds3.py:BlockParser"),
               ("duplicate pointers", "pdr/parselabel/pds3.py:index_duplicate_pointers")],
    note="Keywords and names symbolic, 1-8 upper-case characters, digits and underscores (not OBJECT, GROUP, END...; two of them may start with E); <= 9 statements and blocks, nesting <= 4; MultiDict is modelled by an ordered list of pairs because keys are symbolic (the real one is used in replays).",
)

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
KEY = UP + "0123456789_"
COMMENT = "".join(chr(c) for c in range(32, 127) if chr(c) not in "/")
DIG = "0123456789"
STARTERS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")


def name(sx, nm, n):
    # only two names of a label may start with E (each one that may triples
    # the number of paths)
    s = sx.str(nm + "a", 1, UP if nm in ("k0", "n1", "n0", "k2") else
               UP.replace("E", ""))
    if n > 1:
        s = s + sx.str(nm + "b", n - 1, KEY)
    sx.assume(sx.not_(s.startswith("END")))
    for w in STARTERS:
        if len(w) == n:
            sx.assume(s != w)
    return s


def layouts(sx):
    """text of '=', indentation, end of line"""
    return sx.choice("layout", [(" = ", "  ", "\n"), ("=", "", "\n"),
                                ("   =  ", "\t", "\r\n")])


def same(sx, got, want):
    """got is the mapping with the (name, value) items of want"""
    from multidict import MultiDict
    if not isinstance(got, MultiDict):
        return False
    items = list(got.items())
    if len(items) != len(want):
        return False
    return sx.and_(*[
        sx.and_(k == k2, same(sx, v, v2) if isinstance(v2, list) else
                sx.and_(sx.is_int(v), v == v2))
        for (k, v), (k2, v2) in zip(items, want)])


def sequence(sx, got, want):
    return len(got) == len(want) and sx.and_(
        *[a == b for a, b in zip(got, want)])


def permutation(sx, got, want):
    """equal up to order"""
    if len(got) != len(want):
        return False
    return sx.and_(*[
        count(sx, w, got) == count(sx, w, want) for w in want])


def count(sx, w, xs):
    n = 0
    for x in xs:
        n = n + sx.ite(x == w, 1, 0)
    return n


def parse(sx, text, dedupe=True):
    from pdr.parselabel.pds3 import parse_pvl
    out = sx.run(parse_pvl, text, deduplicate_pointers=dedupe)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None
    return out.value


def value(sx, nm):
    s = sx.str(nm, 1, DIG)
    return s, sx.int_of(s)


def build(sx, script, lens, plain=False):
    """script: 'k' a statement, '[' / '(' an OBJECT / GROUP, ']' its end,
    'c' comment line, 'C' comment after a statement, 'b' blank line"""
    eq, indent, eol = (" = ", "  ", "\n") if plain else layouts(sx)
    text, stack, params, i, lv = "", [[]], [], 0, []
    opened = []
    for op in script:
        pre = indent * len(lv)
        if op == "k" or op == "C":
            k = name(sx, f"k{i}", lens[i % len(lens)])
            t, v = value(sx, f"v{i}")
            text = text + pre + k + eq + t
            if op == "C":
                text = text + " /*" + sx.str(f"c{i}", 4, COMMENT) + "*/"
            text = text + eol
            stack[-1].append((k, v))
            params.append(k)
            i += 1
        elif op in "[({<":
            kw = {"[": "OBJECT", "(": "GROUP", "{": "BEGIN_OBJECT",
                  "<": "BEGIN_GROUP"}[op]
            n = name(sx, f"n{i}", lens[i % len(lens)])
            text = text + pre + kw + eq + n + eol
            stack.append([])
            lv.append((kw[-6:] if kw.endswith("OBJECT") else "GROUP", n))
            i += 1
        elif op == "]":
            kind, n = lv.pop()
            form = "named" if plain else sx.choice(f"end{i}", ["bare", "named"])
            text = text + indent * len(lv) + "END_" + kind
            if form == "named":
                text = text + eq + n
            text = text + eol
            body = stack.pop()
            stack[-1].append((n, body))
            params.append(n)
            i += 1
        elif op == "c":
            text = text + pre + "/* " + sx.str(f"c{i}", 5, COMMENT) + " */" + eol
            i += 1
        elif op == "b":
            text = text + sx.choice(f"blank{i}", ["", "  "]) + eol
            i += 1
    text = text + "END" + eol
    return text, stack[0], params


def structure(sx, script, lens):
    sx.symbolic_keys()
    text, want, params = build(sx, script, lens)
    out = parse(sx, text)
    if out is None:
        return
    sx.check(same(sx, out[0], want), "statements of the label")
    sx.check(permutation(sx, list(out[1]), params), "list of parameters")


def pointers(sx, n, nested):
    """n data pointers, each with its object"""
    sx.symbolic_keys()
    eq, indent, eol = layouts(sx)
    ns = [name(sx, f"n{i}", 3) for i in range(n)]
    vals = [value(sx, f"v{i}") for i in range(2 * n)]
    text = ""
    if nested:
        text = text + "OBJECT = UNCOMPRESSED_FILE" + eol
    for i in range(n):
        text = text + "^" + ns[i] + eq + vals[i][0] + eol
    for i in range(n):
        text = text + "OBJECT" + eq + ns[i] + eol + indent + "ROWS" + eq \
            + vals[n + i][0] + eol + "END_OBJECT" + eol
    if nested:
        text = text + "END_OBJECT" + eq + "UNCOMPRESSED_FILE" + eol
    text = text + "END" + eol
    out = parse(sx, text)
    if out is None:
        return
    want_p, want_o = [], []
    for i in range(n):
        others = [j for j in range(n) if j != i]
        dup = any(bool(ns[i] == ns[j]) for j in others)
        ix = sum(1 for j in range(i) if bool(ns[i] == ns[j]))
        key = ns[i] + f"_{ix}" if dup else ns[i]
        want_p.append(("^" + key, vals[i][1]))
        want_o.append((key, [("ROWS", vals[n + i][1])]))
    want = want_p + want_o
    names = [k for k, _ in want] + ["ROWS"] * n
    if nested:
        want = [("UNCOMPRESSED_FILE", want)]
        names.append("UNCOMPRESSED_FILE")
    sx.check(same(sx, out[0], want), "pointers told apart")
    sx.check(permutation(sx, list(out[1]), names), "list of parameters")


def end_keyword(sx):
    sx.symbolic_keys()
    k = "END" + sx.str("k", 2, "_" + UP)
    out = parse(sx, "OBJECT = TABLE\n  ROWS = 3\n  " + k
                + " = 5\n  COLUMNS = 4\nEND_OBJECT = TABLE\nEND\n")
    if out is None:
        return
    sx.check(same(sx, out[0], [("TABLE", [("ROWS", 3), (k, 5), ("COLUMNS", 4)])]),
             "statements of the label")


def short_lower(sx):
    sx.symbolic_keys()
    k, v = name(sx, "k", 4), sx.str("v", 3, UP.lower())
    sx.assume(sx.and_(v != "set"))
    out = parse(sx, "ROWS = 3\n" + k + " = " + v + "\nZ = 1\nEND\n")
    if out is None:
        return
    label = out[0]
    items = list(label.items())
    sx.check(len(items) == 3, "statements of the label")
    if len(items) == 3:
        sx.check(sx.and_(items[1][0] == k, items[1][1] == v), "statement kept")


F = ["parse_pvl", "chunk_statements", "is_an_assignment_line", "BlockParser",
     "multidict_dig_and_edit", "index_duplicate_pointers"]
S = ["multidict.MultiDict -> ordered list of pairs with symbolic keys",
     "ast.literal_eval -> reference grammar over symbolic text"]


def H(nm, fn, bounds, **params):
    return Harness(nm, fn, F, bounds, S, params=params)


SHAPES = {"flat": "kkk", "object": "k[k]k", "group": "(kk]k", "begin": "{k]<k]",
          "nested": "[k(k]k]k", "siblings": "[k][k]k", "empty_block": "k[]k",
          "comments": "cCbk", "comment_in_block": "[Cck]C", "deep": "[([k]]]",
          "deep_objects": "[k[[k]k]k]k", "deep_groups": "((k(k]k]k]k",
          "wide": "[[k]k[k]k]k[k]", "deepest": "[[[[k]k]k]k]k"}
HARNESSES = (
    [H(f"{n}_{l}", structure, f"names of {l} characters", script=s, lens=(l,))
     for n, s in SHAPES.items() for l in ((3, 6) if n not in ("comments", "comment_in_block") else (3,))]
    + [H("names_1_12", structure, "names of 1, 12 and 5 characters",
         script="k[k]", lens=(1, 12, 5))]
    + [H("pointers_2", pointers, "2 pointers", n=2, nested=False),
       H("pointers_3", pointers, "3 pointers", n=3, nested=False),
       H("pointers_nested", pointers, "2 pointers", n=2, nested=True),
       H("end_keyword", end_keyword, "keywords END??"),
       H("short_lower", short_lower, "keyword of 4 characters")]
)
