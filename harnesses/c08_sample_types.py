"""C08: labelled sample types and widths are honoured, or refused."""
from symex.api import Harness

PROPERTY = "C08"
META = dict(
    title="Sample types are read with the labelled width, sign and byte order, or refused",
    statement="For every PDS3 data type name and every labelled width, a binary table column, an item of one, an IMAGE and a QUBE core are decoded as that type says: integers of 1, 2, 4 or 8 bytes with the sign given by UNSIGNED, reals of 4 or 8 bytes, VAX reals of 4 bytes, character, date and time fields and bit strings as the bytes they are; LSB, PC and VAX types little-endian, all others big-endian; blanks in a type name count as underscores. A width a type cannot have (3-byte integers, SAMPLE_BITS = 12, 2-byte reals, 8-byte VAX reals) or an unknown type name is refused with an error and never read as some other width.",
    quantifier="all widths (bits or bytes), positions and row or pixel counts, for each data type name",
    why="Tests try four widths for ten types; the type table has many more names, and a width that falls through to another one gives plausible numbers.",
    files=["pdr/datatypes.py", "pdr/pd_utils.py", "pdr/loaders/queries.py", "pdr/loaders/image.py"],
    mechanism=[("type table", "pdr/datatypes.py:sample_types"),
               ("integer widths", "pdr/datatypes.py:integer_code"),
               ("columns", "pdr/pd_utils.py:insert_sample_types_into_df"),
               ("pixels", "pdr/loaders/queries.py:base_sample_info")],
    note="Widths symbolic: SAMPLE_BITS 1..256, BYTES 1..64, CORE_ITEM_BYTES 1..64. IBM reals are C13, EBCDIC text is not claimed.",
)

ENDIAN = {"": ">", "MSB_": ">", "LSB_": "<", "PC_": "<", "VAX_": "<",
          "MAC_": ">", "SUN_": ">"}
INTS = {p + s + "INTEGER": e + ("u" if s else "i")
        for p, e in ENDIAN.items() for s in ("", "UNSIGNED_")}
REALS = {"IEEE_REAL": ">f", "PC_REAL": "<f", "FLOAT": ">f", "REAL": ">f",
         "MAC_REAL": ">f", "SUN_REAL": ">f"}
TEXTS = {"CHARACTER": "S", "DATE": "S", "TIME": "S", "ASCII_REAL": "S",
         "ASCII_INTEGER": "S"}
RAW = {"MSB_BIT_STRING": "V", "LSB_BIT_STRING": "V"}
UNKNOWN = ("COMPLEX", "IEEE_COMPLEX", "VAXG_REAL", "VAX_DOUBLE", "REEL",
           "IEEE REEL", "FLOATING")

IMAGE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {{rb}}
FILE_RECORDS = 1
^IMAGE = ("F.IMG", {{start}} <BYTES>)
OBJECT = IMAGE
  LINES = {{nl}}
  LINE_SAMPLES = {{ns}}
  SAMPLE_TYPE = {t}
  SAMPLE_BITS = {{width}}
END_OBJECT = IMAGE
END
"""
QUBE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {{rb}}
FILE_RECORDS = 1
^QUBE = ("F.IMG", {{start}} <BYTES>)
OBJECT = QUBE
  AXES = 3
  AXIS_NAME = (SAMPLE, LINE, BAND)
  CORE_ITEMS = ({{ns}}, {{nl}}, 1)
  CORE_ITEM_BYTES = {{width}}
  CORE_ITEM_TYPE = {t}
END_OBJECT = QUBE
END
"""
TABLE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {{rb}}
FILE_RECORDS = 1
^TABLE = ("F.IMG", {{start}} <BYTES>)
OBJECT = TABLE
  INTERCHANGE_FORMAT = BINARY
  ROWS = {{rows}}
  COLUMNS = 2
  ROW_BYTES = {{row}}
  OBJECT = COLUMN
    NAME = A
    DATA_TYPE = {t}
    START_BYTE = {{pos}}
    BYTES = {{total}}
{items}  END_OBJECT = COLUMN
  OBJECT = COLUMN
    NAME = B
    DATA_TYPE = UNSIGNED_INTEGER
    START_BYTE = {{last}}
    BYTES = 1
  END_OBJECT = COLUMN
END_OBJECT = TABLE
END
"""


def load(path, name):
    import pdr
    data = pdr.read(path)
    data._target_path(name)
    return data.load_from_pointer(name)[name]


def dtypes(t):
    """width in bytes -> numpy dtype the type means at that width"""
    t = t.strip('"').replace(" ", "_")
    if t in INTS:
        return {w: INTS[t] + str(w) for w in (1, 2, 4, 8)}
    if t in REALS:
        return {w: REALS[t] + str(w) for w in (4, 8)}
    if t == "VAX_REAL":
        return {4: "vax"}
    return {}


def raster(sx, kind, types):
    t = types[sx.choice("type", range(len(types)))]
    width = sx.int("width", 1, 256 if kind == "IMAGE" else 64)
    nl, ns = sx.int("nl", 1, 2**10), sx.int("ns", 1, 2**10)
    start, size = sx.int("start", 1, 2**30), sx.int("size", 0, 2**60)
    sx.assume(size >= start - 1 + nl * ns * 64)
    path = sx.file("F", size, ".IMG")
    label = sx.text_file("F.LBL", (IMAGE if kind == "IMAGE" else QUBE).format(t=t),
                         rb=sx.int("rb", 1, 2**20), start=start, nl=nl, ns=ns,
                         width=width)
    out = sx.run(load, label, kind)
    unit = 8 if kind == "IMAGE" else 1
    for w, dt in dtypes(t).items():
        if width == w * unit:
            if not out.ok:
                sx.fail(f"unexpected exception {out.excname}")
                return
            sx.check(sx.shape(out.value) == (nl, ns), "shape")
            sx.forall((nl, ns), lambda l, s: sx.decodes(
                out.value, (l, s), path, start - 1 + (l * ns + s) * w,
                "<f4" if dt == "vax" else dt, vax=dt == "vax"),
                "sample is not decoded as labelled")
            return
    sx.check(out.exc is not None, "type or width that cannot be read is refused")


def column(sx, types, items=1, wmax=64):
    sx.const_hash()
    t = types[sx.choice("type", range(len(types)))]
    width = sx.int("width", 1, wmax)
    pos = sx.int("gap", 0, 100)
    last = pos + width * items + sx.int("gap2", 0, 100)
    row = last + 1 + sx.int("pad", 0, 100)
    rows, start = sx.int("rows", 1, 2**16), sx.int("start", 1, 2**30)
    size = sx.int("size", 0, 2**60)
    sx.assume(size >= start - 1 + rows * row)
    path = sx.file("F", size, ".IMG")
    extra = ""
    vals = {}
    if items > 1:
        extra = f"    ITEMS = {items}\n    ITEM_BYTES = {{width}}\n"
        vals = dict(width=width)
    label = sx.text_file(
        "F.LBL", TABLE.format(t=t, items=extra), rb=sx.int("rb", 1, 2**20),
        start=start, rows=rows, row=row, pos=pos + 1, last=last + 1,
        total=width * items, **vals)
    out = sx.run(load, label, "TABLE")
    name = t.strip('"').replace(" ", "_")
    want = dtypes(t)
    if name in TEXTS or name in RAW:
        width = sx.concrete(width)
        want = {width: (TEXTS.get(name) or RAW.get(name)) + str(width)}
    for w, dt in want.items():
        if width == w:
            if not out.ok:
                sx.fail(f"unexpected exception {out.excname}")
                return
            df = out.value
            names = ["A"] if items == 1 else [f"A_{k}" for k in range(items)]
            sx.check(list(df.columns) == names + ["B"], "column names")
            sx.check(sx.shape(df)[0] == rows, "number of rows")
            for k, n in enumerate(names):
                sx.forall((rows,), lambda r: sx.cell(
                    df, r, n, path, start - 1 + r * row + pos + k * w, dt),
                    "cell is not decoded as labelled")
            sx.forall((rows,), lambda r: sx.cell(
                df, r, "B", path, start - 1 + r * row + last, "u1"),
                "next column is displaced")
            return
    sx.check(out.exc is not None, "type or width that cannot be read is refused")


F = ["Data.__init__", "read_pvl", "ReadImage", "ReadTable", "sample_types",
     "integer_code", "determine_byte_order", "base_sample_info",
     "im_sample_type", "generic_image_properties", "generic_qube_properties",
     "insert_sample_types_into_df", "make_format_specifications",
     "convert_if_vax", "convert_vax_reals", "read_image", "read_table"]
B = "widths 1..64 bytes (1..256 bits), dimensions <= 2^10, rows <= 2^16"
S = ["numpy arrays and file data -> strided-view model",
     "file contents opaque: only which bytes an element is decoded from"]
IT, RT = list(INTS), list(REALS) + ["VAX_REAL"]
SPACED = ['"MSB UNSIGNED INTEGER"', '"PC REAL"', '"VAX REAL"', '"LSB INTEGER"']


def H(name, f, **params):
    return Harness(name, f, F, B, S, params=params)


HARNESSES = [
    H("image_int_a", raster, kind="IMAGE", types=IT[:7]),
    H("image_int_b", raster, kind="IMAGE", types=IT[7:]),
    H("image_real", raster, kind="IMAGE", types=RT),
    H("image_other", raster, kind="IMAGE", types=SPACED + list(UNKNOWN)),
    H("qube_int", raster, kind="QUBE", types=IT[2:8]),
    H("qube_real", raster, kind="QUBE", types=RT + SPACED + list(UNKNOWN[:2])),
    H("column_int_a", column, types=IT[:5]),
    H("column_int_b", column, types=IT[5:10]),
    H("column_int_c", column, types=IT[10:]),
    H("column_real", column, types=RT),
    H("column_text", column, types=list(TEXTS)[:2], wmax=16),
    H("column_raw", column, types=list(RAW) + ["TIME"], wmax=11),
    H("column_other", column, types=SPACED + list(UNKNOWN)),
    H("items_int", column, types=IT[2:7], items=3),
    H("items_real", column, types=RT, items=2),
]
