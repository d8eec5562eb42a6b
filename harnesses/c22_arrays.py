"""C22: PDS3 ARRAY objects are the file's numbers, where the label puts them."""
from symex.api import Harness

PROPERTY = "C22"
META = dict(
    title="PDS3 ARRAYs hold the file's numbers, part by part, where the label says",
    statement="Loading a PDS3 ARRAY gives an array of the shape AXIS_ITEMS (last axis fastest). A binary ARRAY without subobjects holds the numbers of its DATA_TYPE and BYTES that follow each other from the start the pointer gives (byte or record; compressed files count as what they decompress to). In a binary ARRAY of ELEMENTs or of COLLECTIONs, each item is a record with a field per ELEMENT (same names get _0, _1, ...), read with the ELEMENT's type and byte order from START_BYTE of the ELEMENT within the item; an item is as long as the BYTES of the COLLECTION, or ends with its last part. An ARRAY within is a field that holds its AXIS_ITEMS items, from its own START_BYTE (1 if there is none). An ASCII ARRAY (also one without INTERCHANGE_FORMAT) of ELEMENTs, or with an ASCII type, holds the numbers written in the file, in order, including negative ones, ones without digits before the decimal point, and ones with exponents.",
    quantifier="all start bytes, records, gaps, paddings, AXIS_ITEMS (of the ARRAY and of those in it), for each type and nesting shape; all digits of ASCII numbers",
    why="The repository's tests contain no ARRAY; a START_BYTE counted twice, an item that is too short, or axes taken in the wrong order give plausible numbers and show only for particular gaps, paddings and nestings.",
    files=["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py", "pdr/np_utils.py", "pdr/datatypes.py"],
    mechanism=[("unpacking the parts", "pdr/loaders/queries.py:read_format_block"),
               ("item length", "pdr/loaders/queries.py:parse_array_structure"),
               ("offsets", "pdr/pd_utils.py:compute_offsets"),
               ("nested ARRAYs", "pdr/pd_utils.py:construct_nested_array_format"),
               ("reading", "pdr/loaders/table.py:read_array")],
    note="Nesting shapes are per template (<= 3 ELEMENTs per COLLECTION, ARRAYs of one axis one level down, with ELEMENTs or COLLECTIONs in them); everything numeric is symbolic. Not claimed: AXIS_ORDER_TYPE, BIT_ELEMENTs, REPETITIONS, nested ARRAYs with several axes or without subobjects, ASCII ARRAYs that do not start with the file.",
)

HEAD = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {rb}
FILE_RECORDS = 1
^ARRAY = {target}
OBJECT = ARRAY
  NAME = A
  INTERCHANGE_FORMAT = BINARY
  AXES = {axes}
  AXIS_ITEMS = {items}
{body}END_OBJECT = ARRAY
END
"""

TYPES = [
    ("MSB_INTEGER", 4, ">i4"), ("LSB_UNSIGNED_INTEGER", 2, "<u2"),
    ("IEEE_REAL", 8, ">f8"), ("CHARACTER", 5, "S5"),
    ("PC_REAL", 4, "<f4"), ("UNSIGNED_INTEGER", 1, "u1"),
    ("MSB_UNSIGNED_INTEGER", 8, ">u8"), ("LSB_INTEGER", 2, "<i2"),
    ("IEEE_REAL", 4, ">f4"), ("PC_INTEGER", 4, "<i4"),
    ("MSB_UNSIGNED_INTEGER", 2, ">u2"), ("MSB_UNSIGNED_INTEGER", 4, ">u4"),
]


class Body:
    """collects label text and the symbolic numbers in it"""

    def __init__(self, sx):
        self.sx, self.text, self.vals = sx, "", {}

    def num(self, v):
        key = f"v{len(self.vals)}"
        self.vals[key] = v
        return "{" + key + "}"

    def gap(self, name):
        return self.sx.int(name, 0, 2**12)

    def element(self, name, t, pos=None):
        s = (f"  OBJECT = ELEMENT\n    NAME = {name}\n    DATA_TYPE = {t[0]}\n"
             f"    BYTES = {t[1]}\n")
        if pos is not None:
            s += f"    START_BYTE = {self.num(pos + 1)}\n"
        return s + "  END_OBJECT = ELEMENT\n"

    def items(self, ns):
        if len(ns) == 1:
            return self.num(ns[0])
        return "(" + ", ".join(self.num(n) for n in ns) + ")"


# each gives the size of one item and its parts: (path of fields, offset,
# type, number and stride of the items of a nested array or None)
def primitive(sx, b, ti):
    t = TYPES[ti]
    b.text = f"  DATA_TYPE = {t[0]}\n  BYTES = {t[1]}\n"
    return t[1], [((), 0, t[2], None)]


def element(sx, b, ti, start=True):
    t = TYPES[ti]
    pos = b.gap("gap") if start else 0
    b.text = b.element("E", t, pos if start else None)
    return pos + t[1], [(("E",), pos, t[2], None)]


def collection(sx, b, tis, pad=True, length=True, start=True, starts=True):
    pos, inner, parts = 0, "", []
    for i, ti in enumerate(tis):
        t = TYPES[ti]
        if starts:
            pos = pos + b.gap(f"gap{i}")
        inner += b.element(f"E{i}", t, pos if starts else None)
        parts.append(((f"E{i}",), pos, t[2], None))
        pos = pos + t[1]
    size = pos + (b.gap("pad") if pad else 0)
    b.text = ("  OBJECT = COLLECTION\n  NAME = C\n"
              + (f"  BYTES = {b.num(size)}\n" if length else "")
              + ("  START_BYTE = 1\n" if start else "")
              + inner + "  END_OBJECT = COLLECTION\n")
    return size, parts


def nested(sx, b, before, after, ti, pad=True):
    """a COLLECTION with an ARRAY in it"""
    pos, inner, parts = 0, "", []
    if before is not None:
        t = TYPES[before]
        pos = pos + b.gap("gap0")
        inner += b.element("X", t, pos)
        parts.append((("X",), pos, t[2], None))
        pos = pos + t[1]
    pos = pos + b.gap("gap1")
    t, n, g = TYPES[ti], sx.int("n", 1, 2**10), b.gap("gapin")
    inner += (f"  OBJECT = ARRAY\n    NAME = B\n    START_BYTE = {b.num(pos + 1)}\n"
              f"    AXES = 1\n    AXIS_ITEMS = {b.num(n)}\n"
              + b.element("E", t, g) + "  END_OBJECT = ARRAY\n")
    parts.append((("B", "E"), pos + g, t[2], (n, g + t[1])))
    pos = pos + n * (g + t[1])
    if after is not None:
        t = TYPES[after]
        pos = pos + b.gap("gap2")
        inner += b.element("Z", t, pos)
        parts.append((("Z",), pos, t[2], None))
        pos = pos + t[1]
    size = pos + (b.gap("pad") if pad else 0)
    b.text = (f"  OBJECT = COLLECTION\n  NAME = C\n  BYTES = {b.num(size)}\n"
              "  START_BYTE = 1\n" + inner + "  END_OBJECT = COLLECTION\n")
    return size, parts


def arrays(sx, b, ti, start=True):
    """an ARRAY of ARRAYs"""
    t, n = TYPES[ti], sx.int("n", 1, 2**10)
    pos = b.gap("gap1") if start else 0
    b.text = ("  OBJECT = ARRAY\n    NAME = B\n"
              + (f"    START_BYTE = {b.num(pos + 1)}\n" if start else "")
              + f"    AXES = 1\n    AXIS_ITEMS = {b.num(n)}\n"
              + b.element("E", t, 0 if start else None) + "  END_OBJECT = ARRAY\n")
    return pos + n * t[1], [(("B", "E"), pos, t[2], (n, t[1]))]


def two_arrays(sx, b, ti, tj):
    """a COLLECTION of two ARRAYs with an ELEMENT between them"""
    t, u, v = TYPES[ti], TYPES[tj], TYPES[1]
    n, m = sx.int("n", 1, 2**10), sx.int("m", 1, 2**10)
    pos = b.gap("gap0")
    inner = (f"  OBJECT = ARRAY\n    NAME = B\n    START_BYTE = {b.num(pos + 1)}\n"
             f"    AXES = 1\n    AXIS_ITEMS = {b.num(n)}\n"
             + b.element("E", t, 0) + "  END_OBJECT = ARRAY\n")
    parts = [(("B", "E"), pos, t[2], (n, t[1]))]
    pos = pos + n * t[1] + b.gap("gap1")
    inner += b.element("M", v, pos)
    parts.append((("M",), pos, v[2], None))
    pos = pos + v[1] + b.gap("gap2")
    inner += (f"  OBJECT = ARRAY\n    NAME = D\n    START_BYTE = {b.num(pos + 1)}\n"
              f"    AXES = 1\n    AXIS_ITEMS = {b.num(m)}\n"
              + b.element("F", u, 0) + "  END_OBJECT = ARRAY\n")
    parts.append((("D", "F"), pos, u[2], (m, u[1])))
    size = pos + m * u[1] + b.gap("pad")
    b.text = (f"  OBJECT = COLLECTION\n  NAME = C\n  BYTES = {b.num(size)}\n"
              "  START_BYTE = 1\n" + inner + "  END_OBJECT = COLLECTION\n")
    return size, parts


def inner_collection(sx, b, ti, tj, gap=False):
    """a COLLECTION in a COLLECTION"""
    t, u, v = TYPES[ti], TYPES[tj], TYPES[5]
    pos = b.gap("gap0")
    inner = b.element("X", t, pos)
    parts = [(("X",), pos, t[2], None)]
    pos = pos + t[1] + (b.gap("gap1") if gap else 0)
    g = b.gap("gapin")
    h = g + u[1] + b.gap("gapin2")
    length = h + v[1] + b.gap("padin")
    inner += (f"  OBJECT = COLLECTION\n    NAME = D\n    START_BYTE = {b.num(pos + 1)}\n"
              f"    BYTES = {b.num(length)}\n" + b.element("P", u, g)
              + b.element("Q", v, h) + "  END_OBJECT = COLLECTION\n")
    parts += [(("P",), pos + g, u[2], None), (("Q",), pos + h, v[2], None)]
    pos = pos + length + b.gap("gap2")
    inner += b.element("Z", t, pos)
    parts.append((("Z",), pos, t[2], None))
    size = pos + t[1] + b.gap("pad")
    b.text = (f"  OBJECT = COLLECTION\n  NAME = C\n  BYTES = {b.num(size)}\n"
              "  START_BYTE = 1\n" + inner + "  END_OBJECT = COLLECTION\n")
    return size, parts


def array_of_collections(sx, b, ti, tj):
    """a COLLECTION with an ARRAY of COLLECTIONs"""
    t, u, v = TYPES[ti], TYPES[tj], TYPES[1]
    n = sx.int("n", 1, 2**10)
    pos = b.gap("gap0")
    inner = b.element("X", v, pos)
    parts = [(("X",), pos, v[2], None)]
    pos = pos + v[1] + b.gap("gap1")
    g = b.gap("gapin")
    h = g + t[1] + b.gap("gapin2")
    length = h + u[1]
    inner += (f"  OBJECT = ARRAY\n    NAME = B\n    START_BYTE = {b.num(pos + 1)}\n"
              f"    AXES = 1\n    AXIS_ITEMS = {b.num(n)}\n"
              f"  OBJECT = COLLECTION\n    NAME = D\n    START_BYTE = 1\n"
              f"    BYTES = {b.num(length)}\n" + b.element("P", t, g)
              + b.element("Q", u, h) + "  END_OBJECT = COLLECTION\n"
              "  END_OBJECT = ARRAY\n")
    parts += [(("B", "P"), pos + g, t[2], (n, length)),
              (("B", "Q"), pos + h, u[2], (n, length))]
    size = pos + n * length + b.gap("pad")
    b.text = (f"  OBJECT = COLLECTION\n  NAME = C\n  BYTES = {b.num(size)}\n"
              "  START_BYTE = 1\n" + inner + "  END_OBJECT = COLLECTION\n")
    return size, parts


def same_names(sx, b, ti):
    """ELEMENTs of the same name are told apart by number"""
    size, parts = collection(sx, b, (ti, 1, ti))
    b.text = b.text.replace("NAME = E1", "NAME = E0").replace("NAME = E2", "NAME = E0")
    return size, [((f"E0_{i}",), *p[1:]) for i, p in enumerate(parts)]


def load(path, name):
    import pdr
    data = pdr.read(path)
    return data.load_from_pointer(name)[name]


def field(arr, name):
    """the field that holds an object (fields of nested ARRAYs have a prefix)"""
    names = [n for n in arr.dtype.names or ()
             if n == name or n.endswith("_" + name)]
    if len(names) > 1:
        names = [n for n in names if arr[n].dtype.itemsize]
    return arr[names[0]] if len(names) == 1 else None


def array(sx, template, axes=1, suf=".DAT", records=False, **kw):
    sx.const_hash()
    b = Body(sx)
    size, parts = template(sx, b, **kw)
    ns = [sx.int(f"items{i}", 1, 2**10) for i in range(axes)]
    total = 1
    for n in ns:
        total = total * n
    rb = sx.int("rb", 1, 2**20)
    if records:
        rec = sx.int("rec", 1, 2**20)
        first, target = (rec - 1) * rb, f'("T{suf}", {b.num(rec)})'
    else:
        start = sx.int("start", 1, 2**40)
        first, target = start - 1, f'("T{suf}", {b.num(start)} <BYTES>)'
    fsize = sx.int("size", 0, 2**62)
    sx.assume(fsize >= first + total * size)
    path = sx.file("T", fsize, suf)
    label = sx.text_file("T.LBL", HEAD.format(
        rb="{rb}", target=target, axes=axes, items=b.items(ns), body=b.text,
    ), rb=rb, **b.vals)
    out = sx.run(load, label, "ARRAY")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    arr = out.value
    if not hasattr(arr, "dtype"):
        sx.fail("no array")
        return
    sx.check(len(sx.shape(arr)) == axes, "number of axes")
    if len(sx.shape(arr)) != axes:
        return
    sx.check(sx.and_(*[g == n for g, n in zip(sx.shape(arr), ns)]), "AXIS_ITEMS")
    for names, off, dt, sub in parts:
        part = arr
        for name in names:
            part = field(part, name)
            if part is None:
                sx.fail("no field for a part of the array")
                return
        shape = tuple(ns)
        if sub is not None:
            shape += (sub[0],)
            sx.check(len(sx.shape(part)) == axes + 1, "axes of a nested ARRAY")
            if len(sx.shape(part)) != axes + 1:
                return
            sx.check(sx.shape(part)[axes] == sub[0], "AXIS_ITEMS of a nested ARRAY")

        def ok(*ix):
            at = 0
            for i, n in zip(ix, ns):
                at = at * n + i
            at = first + at * size + off
            if sub is not None:
                at = at + ix[-1] * sub[1]
            return sx.decodes(part, ix, path, at, dt)
        sx.forall(shape, ok, "element is not the file's number")


ASCII = """PDS_VERSION_ID = PDS3
RECORD_TYPE = STREAM
^ARRAY = "T.TXT"
OBJECT = ARRAY
  NAME = A
{form}  AXES = {axes}
  AXIS_ITEMS = {items}
{body}END_OBJECT = ARRAY
END
"""
WHAT = {
    "element": "  OBJECT = ELEMENT\n    NAME = E\n    DATA_TYPE = ASCII_REAL\n"
               "    BYTES = 8\n  END_OBJECT = ELEMENT\n",
    "integer": "  DATA_TYPE = ASCII_INTEGER\n  BYTES = 4\n",
    "": "",
}


def number(sx, name, shape):
    """text like `shape` with any digits for its d's, and its value"""
    digits = sx.bytes(name, shape.count("d"), 48, 57)
    body, _, exp = shape.partition("E")
    cells, value, k, frac = [], 0, 0, 0
    for c in shape:
        if c == "d":
            cells.append(("u1", digits[k]))
            k += 1
        else:
            cells.append(c.encode())
    k, point = 0, False
    for c in body:
        if c == "d":
            value = value * 10 + (digits[k] - 48)
            k += 1
            frac += point
        point = point or c == "."
    power = (int(exp) if exp else 0) - frac
    if shape.startswith("-"):
        value = -value
    value = value * 10 ** power if power >= 0 else value / 10 ** -power
    return cells, value


def ascii(sx, shapes, seps, form=True, what="element", axes=1, shape=None):
    sx.const_hash()
    cells, want = [], []
    for i, s in enumerate(shapes):
        c, v = number(sx, f"d{i}", s)
        cells += c + [seps[i % len(seps)].encode()]
        want.append(v)
    sx.value_file("T", cells, ".TXT")
    shape = shape or (len(shapes),)
    label = sx.text_file("T.LBL", ASCII.format(
        form="  INTERCHANGE_FORMAT = ASCII\n" if form else "", axes=len(shape),
        items=shape[0] if len(shape) == 1 else str(shape), body=WHAT[what]))
    out = sx.run(load, label, "ARRAY")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    arr = out.value
    if not hasattr(arr, "dtype"):
        sx.fail("no array")
        return
    sx.check(tuple(sx.shape(arr)) == shape, "AXIS_ITEMS")
    if tuple(sx.shape(arr)) != shape:
        return
    import itertools
    for ix, v in zip(itertools.product(*map(range, shape)), want):
        sx.check(sx.elem(arr, *ix) == v, "element is not the number in the text")


F = ["Data.__init__", "read_pvl", "pointer_to_loader", "ReadArray", "softquery",
     "parse_array_structure", "read_format_block", "compute_offsets",
     "insert_sample_types_into_df", "construct_nested_array_format",
     "fmtdef_to_dtype", "sample_types", "data_start_byte", "read_array",
     "get_array_num_items", "np_from_buffered_io"]
B = "gaps and padding 0..2^12 bytes, 1..3 axes of 1..2^10 items, start byte < 2^40, nested ARRAYs of 1..2^10 items"
BT = "ASCII ARRAYs: <= 6 numbers of <= 5 digits"
S = ["np.fromfile, np.frombuffer and structured dtypes -> strided-view model",
     "format definitions are real pandas objects"]


def H(name, template, **params):
    return Harness(name, array, F, B, S, params=dict(template=template, **params))


def T(name, shapes, seps, **params):
    return Harness("ascii_" + name, ascii, F, BT, [], params=dict(
        shapes=shapes, seps=seps, **params))


HARNESSES = [
    T("a", ("d", "dd", "-ddd", "d"), (" ", "\r\n")),
    T("b", ("d.d", "-dd.dd", ".ddd", "d."), (", ", "\r\n"), form=False),
    T("c", ("d.ddE3", "-dE-2", "+d.dE+1", "+.dE2", "ddE0", "d"), (" ",), what="", shape=(2, 3)),
    T("d", ("+ddddd", "-d", "d", "dddd"), ("  ", "\n"), what="integer", shape=(2, 2)),
    T("e", ("d",) * 6, (" ", "\r\n"), what="integer", shape=(1, 2, 3)),
    T("f", ("d",) * 6, ("\r\n",), shape=(3, 2, 1)),
    H("primitive_a", primitive, ti=0, axes=1),
    H("primitive_b", primitive, ti=1, axes=2, records=True),
    H("primitive_c", primitive, ti=2, axes=3),
    H("primitive_gz", primitive, ti=7, axes=2, suf=".DAT.gz"),
    H("element_a", element, ti=4, axes=2),
    H("element_b", element, ti=6, axes=1, start=False, records=True),
    H("element_c", element, ti=8, axes=3),
    H("element_gz", element, ti=9, axes=2, suf=".DAT.gz"),
    H("collection_a", collection, tis=(0, 1), axes=1),
    H("collection_b", collection, tis=(2, 5, 3), axes=2),
    H("collection_c", collection, tis=(5,), axes=2, records=True),
    H("collection_types", collection, tis=(2, 8, 10), axes=1),
    H("collection_integers", collection, tis=(11, 10, 6), axes=1, length=False, pad=False),
    H("collection_bare", collection, tis=(1, 0), axes=1, start=False, starts=False, pad=False),
    H("collection_no_bytes", collection, tis=(4, 7), axes=1, length=False, pad=False),
    H("collection_gz", collection, tis=(6, 1), axes=1, suf=".DAT.gz"),
    H("nested_a", nested, before=1, after=None, ti=0),
    H("nested_b", nested, before=5, after=2, ti=1, axes=2),
    H("nested_c", nested, before=None, after=4, ti=5),
    H("arrays_a", arrays, ti=0),
    H("two_arrays", two_arrays, ti=0, tj=7),
    H("inner_collection", inner_collection, ti=0, tj=6),
    H("inner_collection_gap", inner_collection, ti=0, tj=6, gap=True),
    H("array_of_collections", array_of_collections, ti=2, tj=7),
    H("same_names", same_names, ti=4),
    H("arrays_b", arrays, ti=1, start=False, axes=2),
]
