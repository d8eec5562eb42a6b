"""C15: metaget and metablock find the first statement of a name."""
import warnings

from harnesses.c09_pvl_structure import build, name, same
from symex.api import Harness

SYMBOLIC_KEYS = True
PROPERTY = "C15"
META = dict(
    title="metaget and metablock return the first statement of that name",
    statement="For a product's metadata, metaget(name) returns the value of the first statement or block of exactly that name, at whatever depth: within a block its own statements and blocks come first, in label order, then the contents of each block nested in it, one block completely after the other. If nothing has that name it returns the default it was given (None if none was); a default has no other effect, whatever its type. metablock(name) returns that first value if it is a block, the whole metadata if it is a plain value, and None if nothing has that name. Both warn (DuplicateKeyWarning) exactly if the name occurs more than once, unless told not to; metaget_ and metablock_ never warn and return the same. Asking again gives the same answer, whatever was asked before. A Data object's methods of these names answer like its metadata. The identifiers of the metadata hold, for each of the identifier keywords, what metaget returns with default ''; tuples and sets among them as strings.",
    quantifier="all keyword and block names (including coinciding ones), values and names asked for; the listed nesting shapes and kinds of default",
    why="Which of several statements of a name is found depends on how they lie in the nesting; every loader asks for its parameters this way, so a wrong choice reads a wrong number silently.",
    files=["pdr/pdr.py"],
    mechanism=[("looking up", "pdr/pdr.py:Metadata.metaget"),
               ("looking up blocks", "pdr/pdr.py:Metadata.metablock"),
               ("memoized search", "pdr/pdr.py:_metaget_factory"),
               ("identifiers", "pdr/pdr.py:Metadata._init_identifiers")],
    note="Names symbolic, 1-8 upper-case characters, digits and underscores; <= 9 statements and blocks, nesting <= 4. metaget_fuzzy needs a library that is not installed and is not covered. MultiDict is modelled by an ordered list of pairs (Metadata's own methods run on it); the real class is used in replays.",
)

DEFAULTS = {"omitted": None, "zero": 0, "text": "x", "list": [], "dict": {},
            "pair": (1, 2)}


def first(tree, q):
    """[first value of name q in the nested list of pairs] or []"""
    for k, v in tree:
        if bool(k == q):
            return [v]
    for k, v in tree:
        if isinstance(v, list):
            found = first(v, q)
            if found:
                return found
    return []


def occurrences(tree, q):
    n = 0
    for k, v in tree:
        n += bool(k == q)
        if isinstance(v, list):
            n += occurrences(v, q)
    return n


def equal(sx, got, want):
    if isinstance(want, list):
        return same(sx, got, want)
    return sx.and_(sx.is_int(got), got == want)


def asked(sx, f, *args):
    """(value, DuplicateKeyWarnings) or None"""
    from pdr.errors import DuplicateKeyWarning

    def ask():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            v = f(*args)
        return v, sum(w.category is DuplicateKeyWarning for w in ws)
    out = sx.run(ask)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None, -1
    return out.value


def questions(sx, m, meta, tree, q, kind):
    found, n = first(tree, q), occurrences(tree, q)
    default = DEFAULTS[kind]
    more = () if kind == "omitted" else (default,)
    for i in range(2):
        for quiet, f in ((False, m.metaget), (True, m.metaget_)):
            v, w = asked(sx, f, q, *more)
            if found:
                sx.check(equal(sx, v, found[0]), "metaget: value of the first")
            else:
                sx.check(v is default, "metaget: the default")
            sx.check(w == (n > 1 and not quiet), "metaget: warns if not unique")
        for quiet, f in ((False, m.metablock), (True, m.metablock_)):
            v, w = asked(sx, f, q)
            if not found:
                sx.check(v is None, "metablock: None if there is none")
            elif isinstance(found[0], list):
                sx.check(same(sx, v, found[0]), "metablock: the first block")
            else:
                sx.check(v is meta, "metablock: the metadata")
            sx.check(w == (n > 1 and not quiet), "metablock: warns if not unique")
        # another default, after the first
        v, w = asked(sx, m.metaget_, q, 5)
        if found:
            sx.check(equal(sx, v, found[0]), "metaget: value of the first")
        else:
            sx.check(v == 5, "metaget: the default")


def lookup(sx, script, lens, default="omitted"):
    from pdr.parselabel.pds3 import parse_pvl
    from pdr.pdr import Metadata
    sx.symbolic_keys()
    text, tree, params = build(sx, script, lens, True)
    q = name(sx, "q", lens[-1])
    out = sx.run(lambda: Metadata(parse_pvl(text, deduplicate_pointers=False)))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    questions(sx, out.value, out.value, tree, q, default)


def identifiers(sx, script):
    """label text around a symbolic part with names of 4 characters"""
    from pdr.parselabel.pds3 import parse_pvl
    from pdr.pdr import Metadata
    sx.symbolic_keys()
    text, tree, params = build(sx, script, (4,), True)
    fixed = [("INSTRUMENT_ID", '{"NAC"}', "{'NAC'}"), ("ROW_BYTES", "17", 17),
             ("PRODUCT_TYPE", '("A", 2)', "('A', 2)"), ("FILE_NAME", "X.IMG", "X.IMG"),
             ("DATA_SET_ID", '"M-1"', "M-1")]
    ix = sx.choice("at", [0, 1, 2])
    outer = "".join(f"{k} = {t}\n" for k, t, _ in fixed)
    inner = "OBJECT = IN\n" + outer.replace("M-1", "M-2").replace("17", "18") \
        + "RECORD_BYTES = 9\nEND_OBJECT = IN\n"
    text = [inner + outer + text, outer + inner + text,
            "OBJECT = X\n" + outer + inner + "END_OBJECT = X\n" + text][ix]
    out = sx.run(lambda: Metadata(parse_pvl(text, deduplicate_pointers=False)))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = out.value.identifiers
    want = {k: v for k, _, v in fixed} | {"RECORD_BYTES": 9}
    sx.check(len(got) == 18, "identifiers: all keywords")
    for k, v in got.items():
        if k in ("NOTE", "ROWS"):
            f = first(tree, k)
            if not f:
                sx.check(v == "", "identifiers: '' if there is none")
            else:
                sx.check(equal(sx, v, f[0]), "identifiers: value of the first")
        else:
            sx.check(v == want.get(k, ""), "identifiers: value of the first")


def product(sx, script, lens, default="omitted"):
    """through pdr.read"""
    import pdr
    sx.symbolic_keys()
    text, tree, params = build(sx, script, lens, True)
    head = "PDS_VERSION_ID = PDS3" + ("\r\n" if "\r\n" in text else "\n")
    tree = [("PDS_VERSION_ID", "PDS3")] + tree
    q = name(sx, "q", lens[-1])
    d = sx.directory("dir", [("A.LBL", (head + text).encode("utf-8"))])
    out = sx.run(pdr.read, sx.path(d, "A.LBL"))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    m = out.value
    questions(sx, m, m.metadata, tree, q, default)
    v, w = asked(sx, m.metaget_, "PDS_VERSION_ID")
    sx.check(v == "PDS3", "metaget: value of the first")


def H(nm, fn, bounds, **params):
    return Harness(nm, fn, F, bounds, S, params=params, budget=150)


F = ["Metadata.metaget", "Metadata.metablock", "_metaget_factory",
     "_metablock_factory", "Metadata._init_identifiers", "dig_for_value", "parse_pvl"]
S = ["multidict.MultiDict -> ordered list of pairs with symbolic keys"]
SHAPES = {"flat": "kkk", "object": "k[k]k", "nested": "[k(k]k]k",
          "siblings": "[k][k]k", "cousins": "[[k]](k]", "late": "[(k]k]k",
          "empty": "[]k", "deep": "[[[k]]]"}
HARNESSES = (
    [H(n, lookup, "names of 3 characters", script=s, lens=(3,))
     for n, s in SHAPES.items()]
    + [H(f"default_{d}", lookup, "names of 2 characters", script="k[k]", lens=(2,),
         default=d) for d in DEFAULTS]
    + [H(f"product_{n}", product, "names of 3 characters", script=s, lens=(3,))
       for n, s in (("object", "k[k]k"), ("nested", "[k(k]]k"))]
    + [H(f"identifiers_{n}", identifiers, "names of 4 characters", script=s)
       for n, s in (("flat", "kk"), ("nested", "[[k]k]"), ("siblings", "[k][k]"))]
)
