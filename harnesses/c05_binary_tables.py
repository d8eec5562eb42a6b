"""C05: cells of a PDS3 binary table are the file's fields."""
from symex.api import Harness

PROPERTY = "C05"
META = dict(
    title="Binary table cells are the file's fields, at the labelled offsets",
    statement="Loading a PDS3 binary table gives a DataFrame with one row per labelled ROW and one column per labelled field (repeated ITEMS and CONTAINERs become NAME_0, NAME_1, ...), in label order, in which every cell is decoded with the field's labelled type and byte order from the bytes at: start byte + row * (ROW_BYTES + ROW_SUFFIX_BYTES) + the field's offset, the offset following from START_BYTE, ITEM_BYTES/ITEM_OFFSET and, for fields of a CONTAINER that directly follows another column, the BYTES and REPETITIONS of that CONTAINER. Format files included with ^STRUCTURE count as if written in place, gaps and padding between fields shift nothing. BOOLEAN columns are True where the byte is nonzero. The same holds for compressed files.",
    quantifier="all column start bytes, gaps, row lengths, row suffixes, row counts, item strides, container sizes and data start bytes, for each type and nesting shape",
    why="Tests load a few fixed tables; a misplaced repeated item, a padding byte left out of the row stride, or a container offset counted twice shows only for particular gaps and nestings.",
    files=["pdr/loaders/queries.py", "pdr/pd_utils.py", "pdr/loaders/table.py", "pdr/np_utils.py", "pdr/datatypes.py", "pdr/utils.py"],
    mechanism=[("unpacking the format definition", "pdr/loaders/queries.py:read_format_block"),
               ("byte offsets", "pdr/pd_utils.py:compute_offsets"),
               ("numpy dtype", "pdr/pd_utils.py:insert_sample_types_into_df"),
               ("reading", "pdr/loaders/table.py:_interpret_as_binary")],
    note="Whole path run symbolically from label text, with real pandas holding symbolic offsets. Number and nesting shape of fields is per template (<= 6 fields, <= 2 nesting levels); all byte positions symbolic up to 2^12 per gap, rows <= 2^20.",
)

HEAD = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {rb}
FILE_RECORDS = 1
^TABLE = ("T{suf}", {start} <BYTES>)
OBJECT = TABLE
  INTERCHANGE_FORMAT = BINARY
  ROWS = {rows}
  COLUMNS = {ncol}
{extra}{body}END_OBJECT = TABLE
END
"""

TYPES = [
    ("MSB_INTEGER", 4, ">i4"), ("LSB_UNSIGNED_INTEGER", 2, "<u2"),
    ("IEEE_REAL", 8, ">f8"), ("CHARACTER", 5, "S5"),
    ("PC_REAL", 4, "<f4"), ("UNSIGNED_INTEGER", 1, "u1"),
    ("MSB_UNSIGNED_INTEGER", 8, ">u8"), ("LSB_INTEGER", 2, "<i2"),
    ("IEEE_REAL", 4, ">f4"), ("DATE", 10, "S10"), ("PC_INTEGER", 8, "<i8"),
    ("INTEGER", 2, ">i2"), ("VAX_REAL", 4, "vax"),
]


class Body:
    """collects label text and the symbolic numbers in it"""

    def __init__(self, sx):
        self.sx, self.text, self.vals = sx, "", {}

    def num(self, v):
        key = f"v{len(self.vals)}"
        self.vals[key] = v
        return "{" + key + "}"

    def column(self, name, t, start, indent="  ", **more):
        s = (f"{indent}OBJECT = COLUMN\n{indent}  NAME = {name}\n"
             f"{indent}  DATA_TYPE = {t[0]}\n"
             f"{indent}  START_BYTE = {self.num(start)}\n"
             f"{indent}  BYTES = {t[1] if 'bytes' not in more else self.num(more.pop('bytes'))}\n")
        for k, v in more.items():
            s += f"{indent}  {k} = {self.num(v)}\n"
        s += f"{indent}END_OBJECT = COLUMN\n"
        return s


def gap(sx, name):
    return sx.int(name, 0, 2**12)


def plain(sx, b, types, shuffle=False):
    pos, cols = 0, []
    for i, ti in enumerate(types):
        t = TYPES[ti]
        pos = pos + gap(sx, f"gap{i}")
        b.text += b.column(f"C{i}", t, pos + 1)
        cols.append((f"C{i}", pos, t[2]))
        pos = pos + t[1]
    return cols, pos, len(types)


def items(sx, b, n, ti, spaced, before, after):
    """a column of n items between plain columns"""
    pos, cols, nc = 0, [], 0
    if before:
        t = TYPES[1]
        pos = pos + gap(sx, "gap0")
        b.text += b.column("A", t, pos + 1)
        cols.append(("A", pos, t[2]))
        pos = pos + t[1]
        nc += 1
    t = TYPES[ti]
    pos = pos + gap(sx, "gap1")
    more = dict(ITEMS=n, ITEM_BYTES=t[1])
    stride = t[1]
    if spaced:
        stride = t[1] + gap(sx, "itemgap")
        more["ITEM_OFFSET"] = stride
    total = (n - 1) * stride + t[1]
    b.text += b.column("I", t, pos + 1, bytes=total, **more)
    for k in range(n):
        cols.append((f"I_{k}" if n > 1 else "I", pos + k * stride, t[2]))
    pos = pos + total
    nc += 1
    if after:
        t = TYPES[after]
        pos = pos + gap(sx, "gap2")
        b.text += b.column("Z", t, pos + 1)
        cols.append(("Z", pos, t[2]))
        pos = pos + t[1]
        nc += 1
    return cols, pos, nc


def container(sx, b, reps, fields, before=True, after=True, pad=True,
              gap1=False):
    pos, cols, nc = 0, [], 1
    if before:
        t = TYPES[0]
        pos = pos + gap(sx, "gap0")
        b.text += b.column("A", t, pos + 1)
        cols.append(("A", pos, t[2]))
        pos = pos + t[1]
        nc += 1
    if gap1:
        pos = pos + gap(sx, "gap1")
    inner, ipos, names = "", 0, []
    for i, ti in enumerate(fields):
        t = TYPES[ti]
        ipos = ipos + gap(sx, f"cgap{i}")
        inner += b.column(f"F{i}", t, ipos + 1, indent="    ")
        names.append((f"F{i}", ipos, t[2]))
        ipos = ipos + t[1]
    size = ipos + (gap(sx, "cpad") if pad else 0)
    b.text += (f"  OBJECT = CONTAINER\n    NAME = BOX\n"
               f"    START_BYTE = {b.num(pos + 1)}\n    BYTES = {b.num(size)}\n"
               f"    REPETITIONS = {reps}\n{inner}"
               f"  END_OBJECT = CONTAINER\n")
    for r in range(reps):
        for n, o, dt in names:
            cols.append((f"{n}_{r}" if reps > 1 else n, pos + r * size + o, dt))
    pos = pos + reps * size
    if after:
        t = TYPES[2]
        pos = pos + gap(sx, "gap2")
        b.text += b.column("Z", t, pos + 1)
        cols.append(("Z", pos, t[2]))
        pos = pos + t[1]
        nc += 1
    return cols, pos, nc


def shuffled(sx, b, ti=1):
    """columns listed out of byte order, two of them with items"""
    t, u = TYPES[ti], TYPES[5]
    p0 = gap(sx, "gap0")
    p1 = p0 + 2 * t[1] + gap(sx, "gap1")
    p2 = p1 + 3 * u[1] + gap(sx, "gap2")
    b.text += b.column("J", u, p1 + 1, bytes=3 * u[1], ITEMS=3, ITEM_BYTES=u[1])
    b.text += b.column("Z", TYPES[0], p2 + 1)
    b.text += b.column("I", t, p0 + 1, bytes=2 * t[1], ITEMS=2, ITEM_BYTES=t[1])
    cols = [(f"J_{k}", p1 + k * u[1], u[2]) for k in range(3)]
    cols += [("Z", p2, TYPES[0][2])]
    cols += [(f"I_{k}", p0 + k * t[1], t[2]) for k in range(2)]
    return cols, p2 + 4, 3


def two_item_columns(sx, b):
    t, u = TYPES[0], TYPES[7]
    p0 = gap(sx, "gap0")
    p1 = p0 + 2 * t[1] + gap(sx, "gap1")
    b.text += b.column("I", t, p0 + 1, bytes=2 * t[1], ITEMS=2, ITEM_BYTES=t[1])
    b.text += b.column("J", u, p1 + 1, bytes=3 * u[1], ITEMS=3, ITEM_BYTES=u[1])
    cols = [(f"I_{k}", p0 + k * t[1], t[2]) for k in range(2)]
    cols += [(f"J_{k}", p1 + k * u[1], u[2]) for k in range(3)]
    return cols, p1 + 3 * u[1], 2


def item_columns(sx, b, spec, plain=()):
    """columns (items, type, spaced) one after the other, each followed by a
    plain column if its index is in plain"""
    pos, cols, nc = 0, [], 0
    for i, (n, ti, spaced) in enumerate(spec):
        t = TYPES[ti]
        pos = pos + gap(sx, f"gap{i}")
        more, stride = dict(ITEMS=n, ITEM_BYTES=t[1]), t[1]
        if spaced:
            stride = t[1] + gap(sx, f"itemgap{i}")
            more["ITEM_OFFSET"] = stride
        total = (n - 1) * stride + t[1]
        b.text += b.column(f"I{i}", t, pos + 1, bytes=total, **more)
        cols += [(f"I{i}_{k}", pos + k * stride, t[2]) for k in range(n)]
        pos = pos + total
        nc += 1
        if i in plain:
            u = TYPES[3]
            b.text += b.column(f"P{i}", u, pos + 1)
            cols.append((f"P{i}", pos, u[2]))
            pos = pos + u[1]
            nc += 1
    return cols, pos, nc


def two_containers(sx, b):
    t = TYPES[5]
    pos = gap(sx, "gap0")
    b.text += b.column("A", t, pos + 1)
    cols = [("A", pos, t[2])]
    pos = pos + 1
    for c, reps, ti in (("P", 2, 1), ("Q", 3, 0)):
        u = TYPES[ti]
        g = gap(sx, f"in{c}")
        size = g + u[1] + gap(sx, f"pad{c}")
        b.text += (f"  OBJECT = CONTAINER\n    NAME = BOX{c}\n"
                   f"    START_BYTE = {b.num(pos + 1)}\n    BYTES = {b.num(size)}\n"
                   f"    REPETITIONS = {reps}\n" + b.column(c, u, g + 1)
                   + "  END_OBJECT = CONTAINER\n")
        for r in range(reps):
            cols.append((f"{c}_{r}", pos + r * size + g, u[2]))
        pos = pos + reps * size
        # the next thing follows directly after a column
        b.text += b.column(f"S{c}", t, pos + 1)
        cols.append((f"S{c}", pos, t[2]))
        pos = pos + 1
    return cols, pos, 5


def items_in_container(sx, b):
    t, u = TYPES[5], TYPES[1]
    pos = gap(sx, "gap0")
    b.text += b.column("A", t, pos + 1)
    cols = [("A", pos, t[2])]
    pos = pos + 1
    g = gap(sx, "cgap0")
    h = g + 1 + gap(sx, "cgap1")
    size = h + 3 * u[1] + gap(sx, "cpad")
    b.text += (f"  OBJECT = CONTAINER\n    NAME = BOX\n"
               f"    START_BYTE = {b.num(pos + 1)}\n    BYTES = {b.num(size)}\n"
               f"    REPETITIONS = 2\n" + b.column("F", t, g + 1)
               + b.column("I", u, h + 1, bytes=3 * u[1], ITEMS=3, ITEM_BYTES=u[1])
               + "  END_OBJECT = CONTAINER\n")
    for r in range(2):
        cols.append((f"F_{r}", pos + r * size + g, t[2]))
        for k in range(3):
            cols.append((f"I_{3 * r + k}", pos + r * size + h + k * u[1], u[2]))
    return cols, pos + 2 * size, 2


def nested(sx, b):
    """a CONTAINER in a CONTAINER, nothing repeated in the outer one"""
    t = TYPES[5]
    b.text += b.column("A", t, 1)
    size = 1 + 2 * 2 + 1
    b.text += ("  OBJECT = CONTAINER\n    NAME = OUT\n    START_BYTE = 2\n"
               f"    BYTES = {size}\n    REPETITIONS = 2\n" + b.column("F", t, 1)
               + "  OBJECT = CONTAINER\n    NAME = IN\n    START_BYTE = 2\n"
               "    BYTES = 2\n    REPETITIONS = 2\n" + b.column("P", t, 1)
               + b.column("Q", t, 2) + "  END_OBJECT = CONTAINER\n"
               + b.column("G", t, size) + "  END_OBJECT = CONTAINER\n")
    cols = [("A", 0, "u1")]
    k = 0
    for r in range(2):
        cols.append((f"F_{r}", 1 + r * size, "u1"))
        for q in range(2):
            cols += [(f"P_{k}", 2 + r * size + 2 * q, "u1"),
                     (f"Q_{k}", 3 + r * size + 2 * q, "u1")]
            k += 1
        cols.append((f"G_{r}", r * size + size, "u1"))
    return cols, 1 + 2 * size, 2


def booleans(sx, b):
    p0 = gap(sx, "gap0")
    p1 = p0 + 1 + gap(sx, "gap1")
    b.text += b.column("B", ("BOOLEAN", 1), p0 + 1)
    b.text += b.column("Z", TYPES[8], p1 + 1)
    return [("B", p0, "bool"), ("Z", p1, TYPES[8][2])], p1 + 4, 2


def load(path, name):
    import pdr
    data = pdr.read(path)
    return data.load_from_pointer(name)[name]


def table(sx, template, suf=".DAT", suffix=False, structure=False,
          rowbytes=True, prefix=False, **kw):
    sx.const_hash()
    b = Body(sx)
    cols, end, ncol = template(sx, b, **kw)
    extra, stride = "", end
    if rowbytes:
        row = end + gap(sx, "rowpad")
        stride = row
        extra += f"  ROW_BYTES = {b.num(row)}\n"
    if prefix:
        p = gap(sx, "prefix")
        extra += f"  ROW_PREFIX_BYTES = {b.num(p)}\n"
        stride = stride + p
        cols = [(n, p + o, d) for n, o, d in cols]
    if suffix:
        s = gap(sx, "suffix")
        stride = stride + s
        extra += f"  ROW_SUFFIX_BYTES = {b.num(s)}\n"
    rows, start = sx.int("rows", 1, 2**20), sx.int("start", 1, 2**40)
    size = sx.int("size", 0, 2**62)
    sx.assume(size >= start - 1 + rows * stride)
    path = sx.file("T", size, suf)
    body = b.text
    if structure == "parts":
        c = [p + "  END_OBJECT = COLUMN\n" for p in body.split("  END_OBJECT = COLUMN\n")[:-1]]
        sx.text_file("A.FMT", c[1], **b.vals)
        sx.text_file("B.FMT", c[3] + '  ^C_STRUCTURE = "C.FMT"\n' + c[5], **b.vals)
        sx.text_file("C.FMT", c[4], **b.vals)
        body = (c[0] + '  ^STRUCTURE = "A.FMT"\n' + c[2] + '  ^B_STRUCTURE = "B.FMT"\n'
                + "".join(c[6:]))
    elif structure == "container":
        i, j = body.index("REPETITIONS"), body.index("  END_OBJECT = CONTAINER")
        i = body.index("\n", i) + 1
        sx.text_file("COLS.FMT", body[i:j], **b.vals)
        body = body[:i] + '    ^STRUCTURE = "COLS.FMT"\n' + body[j:]
    elif structure:
        sx.text_file("COLS.FMT", body, **b.vals)
        body = '  ^STRUCTURE = "COLS.FMT"\n'
    label = sx.text_file("T.LBL", HEAD.format(
        rb="{rb}", start="{start}", rows="{rows}", suf=suf, ncol=ncol,
        extra=extra, body=body,
    ), rb=sx.int("rb", 1, 2**20), start=start, rows=rows, **b.vals)
    out = sx.run(load, label, "TABLE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value
    sx.check(list(df.columns) == [c[0] for c in cols], "column names")
    sx.check(sx.shape(df)[0] == rows, "number of rows")
    for name, off, dt in cols:
        sx.forall((rows,), lambda r: sx.cell(
            df, r, name, path, start - 1 + r * stride + off, dt),
            "cell is not the file's field")


F = ["Data.__init__", "read_pvl", "pointer_to_loader", "ReadTable", "softquery",
     "read_format_block", "parse_table_structure", "compute_offsets",
     "insert_sample_types_into_df", "sample_types", "fmtdef_to_dtype",
     "reindex_df_values", "append_repeated_object", "inject_format_files",
     "data_start_byte", "read_table", "_interpret_as_binary",
     "np_from_buffered_io", "enforce_order_and_object"]
B = "gaps, pads and suffixes 0..2^12 bytes, rows 1..2^20, start byte < 2^40"
S = ["np.fromfile and structured dtypes -> strided-view model",
     "DataFrame of file data -> column model; format definitions are real pandas objects"]


def H(name, template, **params):
    return Harness(name, table, F, B, S, params=dict(template=template, **params))


HARNESSES = [
    H("plain_a", plain, types=(0, 1, 2)),
    H("plain_b", plain, types=(3, 4, 5), suffix=True),
    H("plain_c", plain, types=(6, 7, 8)),
    H("plain_d", plain, types=(9, 10, 11), suffix=True),
    H("vax", plain, types=(12, 1)),
    H("single", plain, types=(0,)),
    H("gz", plain, types=(0, 1), suf=".DAT.gz", suffix=True),
    H("structure", plain, types=(2, 5), structure=True),
    H("structures", plain, types=(2, 5, 0, 1, 7, 5, 1), structure="parts", suffix=True),
    H("structures_six", plain, types=(1, 0, 5, 2, 5, 7), structure="parts"),
    H("structure_in_container", container, reps=2, fields=(5, 7), structure="container"),
    H("items", items, n=3, ti=1, spaced=False, before=True, after=2),
    H("items_spaced", items, n=3, ti=0, spaced=True, before=True, after=1),
    H("items_last", items, n=2, ti=4, spaced=False, before=True, after=0,
      suffix=True),
    H("items_spaced_last", items, n=3, ti=5, spaced=True, before=False, after=0),
    H("one_item", items, n=1, ti=2, spaced=False, before=True, after=1),
    H("many_items", items, n=7, ti=0, spaced=False, before=False, after=5,
      suf=".DAT.gz"),
    H("two_item_columns", two_item_columns, suffix=True),
    H("item_columns_a", item_columns, spec=((2, 1, True), (3, 5, True)), suffix=True),
    H("item_columns_b", item_columns, spec=((2, 0, False), (2, 5, True), (2, 7, False)),
      plain=(0, 2)),
    H("item_columns_c", item_columns, spec=((3, 3, True), (2, 8, True)), plain=(1,),
      structure=True),
    H("shuffled", shuffled),
    H("container", container, reps=2, fields=(1, 4)),
    H("container_once", container, reps=1, fields=(0, 5), suffix=True),
    H("container_last", container, reps=3, fields=(2,), after=False),
    H("container_structure", container, reps=2, fields=(5, 7), structure=True),
    H("two_containers", two_containers),
    H("items_in_container", items_in_container),
    H("booleans", booleans),
    H("no_row_bytes", plain, types=(0, 1), rowbytes=False),
    H("row_prefix", plain, types=(0, 1), prefix=True),
    H("container_gap", container, reps=2, fields=(1,), gap1=True),
    H("container_first", container, reps=2, fields=(1,), before=False),
    H("container_only", container, reps=2, fields=(1,), before=False, after=False),
    H("nested", nested),
]
