"""C25: what a PDS4 label says is kept in the metadata."""
import warnings

from symex.api import Harness

PROPERTY = "C25"
XML_FILES = True
SYMBOLIC_KEYS = True
META = dict(
    title="The metadata of a PDS4 product hold every element of its label",
    statement="data.metadata of a PDS4 product is a mapping with the label's root element as its "
    "one key. An element with child elements is a mapping of its children's names to their "
    "values, in the label's order; children of the same name are that many items of the mapping, "
    "together where the first of them is. An element without children is its text: still text, "
    "whatever it looks like; if only one of its lines is not blank, without the white space "
    "around that line and with one space for every white space inside it, if more lines "
    "are not blank, exactly as in the label; None if it is empty or blank (an empty mapping if "
    "it has attributes). Attributes are no items. Names of the PDS namespace have no prefix, those "
    "of other namespaces are 'prefix:name', with the label's prefix, and always disp: and sp: for "
    "the display and the spectral dictionary; elements of two namespaces with the same local name "
    "stay apart. data.metaget and data.metadata.metaget of a name give the value of "
    "the mapping's first item of that name or, if it has none, that of the first of its child "
    "mappings that holds one (found in the same way); they warn with DuplicateKeyWarning if and "
    "only if the label has several elements of that name, and give None for names it has not; "
    "data.metablock_ gives the same item if that is a mapping.",
    quantifier="for every name of 1 to 3 letters (equal ones included) and every text of 1 to 4 "
    "characters (all of ASCII's printable characters and white space in the text_* harnesses) of "
    "the labels of 2 to 8 free elements in the list of harnesses",
    why="everything that pdr knows about a PDS4 product, and all a user can ask about it, comes "
    "from this mapping; a lost repetition, a merged namespace or a text made a number only shows "
    "for particular names and texts, and the tests read a few labels",
    files=["pdr/pdr.py", "pdr/parselabel/pds4.py"],
    mechanism=[("reading", "pdr/pds4_tools/reader/read_label.py:read_label"),
               ("elements", "pdr/pds4_tools/utils/helpers.py:xml_to_dict"),
               ("repeated elements", "pdr/parselabel/pds4.py:unpack_to_multidict"),
               ("names", "pdr/parselabel/pds4.py:reformat_pds4_tools_label")],
    note="The XML parser (ElementTree) is the real one: it reads a label of unique words, for "
    "which the symbolic names and texts are then put into the tree; replays read a real file. "
    "NOT claimed: text between child elements, comments and processing "
    "instructions, white space other than ASCII's, entities, and the structures that "
    "pds4_tools makes from the label for reading data (C03, C05).",
)

PDS = "http://pds.nasa.gov/pds4/pds/v1"
LOW = "abcdefghijklmnopqrstuvwxyz"
TEXT = "".join(map(chr, range(32, 127))) + "\t\n"


def same(sx, got, want):
    from multidict import MultiDict
    if want is None:
        return got is None
    if isinstance(want, list):
        if not isinstance(got, MultiDict):
            return False
        items = list(got.items())
        if len(items) != len(want):
            return False
        return sx.and_(*[sx.and_(k == k2, same(sx, v, v2))
                         for (k, v), (k2, v2) in zip(items, want)])
    return isinstance(got, str) and got == want


def grouped(pairs):
    """elements of the same name together, where the first one is"""
    out = []
    for k, v in pairs:
        at = [i for i, (k2, _) in enumerate(out) if bool(k2 == k)]
        out.insert(at[-1] + 1 if at else len(out), (k, v))
    return out


def first(tree, q):
    for k, v in tree:
        if bool(k == q):
            return [v]
    for k, v in tree:
        if isinstance(v, list):
            found = first(v, q)
            if found:
                return found
    return []


def occurrences(tree, q):
    n = 0
    for k, v in tree:
        n += bool(k == q)
        if isinstance(v, list):
            n += occurrences(v, q)
    return n


def read(path):
    import pdr
    return pdr.read(path)


def ask(f, *a):
    from pdr.errors import DuplicateKeyWarning
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        v = f(*a)
    return v, any(w.category is DuplicateKeyWarning for w in ws)


def verify(sx, label, want, questions=()):
    out = sx.run(read, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    sx.check(same(sx, data.metadata, want), "elements of the label")
    for q in questions:
        found, n = first(want, q), occurrences(want, q)
        for f in (data.metaget, data.metadata.metaget):
            got = sx.run(ask, f, q)
            if not got.ok:
                sx.fail(f"unexpected exception {got.excname}")
                return
            v, warned = got.value
            sx.check(same(sx, v, found[0]) if found else v is None, "metaget")
            sx.check(warned == (n > 1), "metaget: warns if not unique")
        got = sx.run(data.metablock_, q)
        if not got.ok:
            sx.fail(f"unexpected exception {got.excname}")
            return
        if found and isinstance(found[0], list):
            sx.check(same(sx, got.value, found[0]), "metablock")


def nested(sx, shape, lens=(2,), attrs=False, ask=True, root="Product_Context"):
    """shape: nested lists of elements; their names and texts are symbolic"""
    sx.symbolic_keys()
    names = []
    count = iter(range(100))

    def element(e):
        k = next(count)
        nm = sx.str(f"n{k}", lens[k % len(lens)], LOW)
        names.append(nm)
        a = [[("x", sx.str(f"a{k}", 1, LOW))]] if attrs and k % 2 else [[]]
        if isinstance(e, list):
            kids, vals = zip(*[element(c) for c in e])
            return (nm, None, kids, *a), (nm, grouped(vals))
        if e == 0:
            return (nm, None, [], *a), (nm, [] if a[0] else None)
        text = sx.str(f"t{k}", e, LOW + "0123456789.-+")
        return (nm, text, [], *a), (nm, text)
    kids, vals = zip(*[element(c) for c in shape])
    label = sx.xml_file("L.xml", (root, None, kids), [("", PDS)])
    want = [(root, grouped(vals))]
    verify(sx, label, want, [names[0], names[-1], sx.str("q", lens[-1], LOW)] if ask else ())


def texts(sx, n, around=("", ""), attrs=False):
    """white space in a text"""
    sx.symbolic_keys()
    text = around[0] + sx.str("t", n, TEXT) + around[1]
    label = sx.xml_file("L.xml", ("Product_Context", None, [
        ("aa", text, [], [("x", "y")] if attrs else []), ("bb", "1", [])]), [("", PDS)])
    lines = [w for w in text.split("\n") if w.strip(" \t")]
    if len(lines) > 1:
        want = text
    elif lines:
        words = lines[0].split()
        want = words[0]
        for w in words[1:]:
            want = want + " " + w
    else:
        want = [] if attrs else None
    verify(sx, label, [("Product_Context", [("aa", want), ("bb", "1")])])


SPACES = {   # prefix in the label: (URI, prefix in the metadata)
    "disp": ("http://pds.nasa.gov/pds4/disp/v1", "disp"),
    "display": ("http://pds.nasa.gov/pds4/disp/v1", "disp"),
    "sp": ("http://pds.nasa.gov/pds4/sp/v1", "sp"),
    "geom": ("http://pds.nasa.gov/pds4/geom/v1", "geom"),
    "m": ("http://mission.example.org/pds/v2", "m"),
    "pds": (PDS, ""),
}


def namespaces(sx, prefixes, default=PDS, lens=(1, 2)):
    """elements of several namespaces, one with children of all of them"""
    sx.symbolic_keys()
    n = iter(range(100))
    kids, vals = [], []

    def tag(p):
        k = next(n)
        s = sx.str(f"n{k}", lens[k % len(lens)], LOW)
        if p is None:
            return s, s
        out = SPACES[p][1]
        return (p, s), (out + ":" + s if out else s)

    def leaf(p):
        t, name = tag(p)
        text = sx.str(f"t{next(n)}", 2, LOW + ".0")
        return (t, text, []), (name, text)
    for p in prefixes:
        t, name = tag(p)
        inner = [leaf(q) for q in (p, prefixes[0])]
        kids.append((t, None, [e for e, _ in inner]))
        vals.append((name, grouped([v for _, v in inner])))
        e, v = leaf(p)
        kids.append(e)
        vals.append(v)
    spaces = [(p, SPACES[p][0]) for p in dict.fromkeys(prefixes) if p]
    root = "Product_Context"
    if default:
        spaces.insert(0, ("", default))
        label = (root, None, kids)
    else:
        label = (("pds", root), None, kids)
        spaces = [("pds", PDS)] + [x for x in spaces if x[0] != "pds"]
    verify(sx, sx.xml_file("L.xml", label, spaces), [(root, grouped(vals))], [vals[-1][0]])


def observational(sx):
    """a product with data: the metadata hold its whole label"""
    sx.symbolic_keys()
    names = [sx.str(f"n{k}", 2, LOW) for k in range(3)]
    texts_ = [sx.str(f"t{k}", 3, LOW + "0123456789." if k != 2 else "bcdeghjk")
              for k in range(5)]

    def axis(name, n, k):
        return ("Axis_Array", None, [("axis_name", name, []), ("elements", n, []),
                                     ("sequence_number", k, [])])
    array = ("Array_2D_Image", None, [
        ("local_identifier", "IMG", []), ("offset", "0", [], [("unit", "byte")]),
        ("axes", "2", []), ("axis_index_order", "Last Index Fastest", []),
        ("Element_Array", None, [("data_type", "UnsignedByte", [])]),
        axis("Line", "02", "1"), axis("Sample", "2", "2"),
        (names[2], texts_[2], [])])
    tree = ("Product_Observational", None, [
        ("Identification_Area", None, [
            ("logical_identifier", "urn:nasa:pds:x:y:z", []), ("version_id", "1.0", []),
            ("title", texts_[0], []), (names[0], texts_[1], []),
            ("information_model_version", "1.11.0.0", [])]),
        (names[1], None, [("title", texts_[3], []), ("title", texts_[4], [])]),
        ("File_Area_Observational", None, [
            ("File", None, [("file_name", "Q.DAT", [])]), array])],
        [("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"),
         ("xsi:schemaLocation", PDS + " PDS4.xsd")])

    def want(e):
        return e[0], grouped([want(c) for c in e[2]]) if e[2] else e[1]
    sx.value_file("Q", [("u1", k) for k in range(4)], ".DAT")
    verify(sx, sx.xml_file("L.xml", tree, [("", PDS)]), [want(tree)],
           ["title", "elements", names[2], "file_name", "Axis_Array", "File_Area_Observational"])


def H(title, fn, **params):
    return Harness(title, fn, F, B, S, params=params)


F = ["Data._init_pds4", "Data.read_metadata", "read_label", "Label.to_dict", "xml_to_dict",
     "reformat_pds4_tools_label", "unpack_to_multidict", "Metadata.metaget",
     "Metadata.metablock"]
B = "labels of <= 8 elements, nesting <= 4; texts of <= 8 characters"
S = ["the XML parser is the real one; names and texts are put into what it has read"]

HARNESSES = [
    H("flat_3", nested, shape=[1, 2, 3]),
    H("flat_4", nested, shape=[1, 0, 2, 1]),
    H("flat_lens", nested, shape=[1, 1, 1, 1, 1], lens=(1, 2, 1)),
    H("pair", nested, shape=[[1, 1], [2]]),
    H("pair_3", nested, shape=[[1], [2]], lens=(3,)),
    H("mixed", nested, shape=[1, [1], 0, [[1]]], lens=(2, 1)),
    H("deep", nested, shape=[[[1, 2], 1]], lens=(1,)),
    H("deeper", nested, shape=[[[[1], 1]]]),
    H("deep_pair", nested, shape=[[[1], 1], 1]),
    H("repeated", nested, shape=[[1, 1, 1, 1]], lens=(1,)),
    H("blocks", nested, shape=[[1, 1], 1, [1]], lens=(1, 2)),
    H("six", nested, shape=[1] * 6, lens=(1,), ask=False),
    H("attributes", nested, shape=[1, [1, 0], 0], attrs=True),
    H("namespaces", namespaces, prefixes=[None, "disp"]),
    H("namespaces_3", namespaces, prefixes=["geom", "m", None], lens=(1, 2, 3)),
    H("namespaces_display", namespaces, prefixes=["display", "sp"]),
    H("namespaces_pds", namespaces, prefixes=["pds", "geom"], default=None),
    H("observational", observational),
    H("text_1", texts, n=1),
    H("text_4", texts, n=4),
    H("text_around", texts, n=3, around=("a ", "\n\tb")),
    H("text_inside", texts, n=3, around=("\n    0", ".5\n  ")),
    H("text_lines", texts, n=2, around=("\n  x y\n", "z\n  ")),
    H("text_attribute", texts, n=3, attrs=True),
]
