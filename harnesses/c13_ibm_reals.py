"""C13: IBM System/360 reals."""
from symex.api import Harness
from harnesses.c08_sample_types import load

PROPERTY = "C13"
META = dict(
    title="IBM System/360 reals are converted to their exact values",
    statement="A table column, an item of one, or a pixel of an IMAGE or QUBE, whose type is IBM_REAL, of 4 or 8 bytes, holds for every stored bit pattern (sign s, excess-64 exponent e, fraction f) the number (-1)^s * f * 16^(e-64), to within the precision of the result: 2^-24 relative where 4-byte reals are returned as float32, 2^-52 otherwise. This holds for numbers too small or too large for float32, for unnormalized fractions, for zero, whatever the other rows hold, and other columns are not disturbed.",
    quantifier="all 2^32 bit patterns of a 4-byte real and all 2^64 of an 8-byte one, and next to a second value, of any fraction, sets of exponents across the range",
    why="The test converts one number per width; precision near the limits of float32 depends on the exponents of all rows together.",
    files=["pdr/np_utils.py", "pdr/pd_utils.py", "pdr/loaders/table.py", "pdr/loaders/image.py"],
    mechanism=[("conversion", "pdr/np_utils.py:ibm_to_np"),
               ("columns, narrowing to float32", "pdr/pd_utils.py:convert_ibm_reals"),
               ("pixels", "pdr/loaders/image.py:convert_if_vax")],
    note="One or two rows; float64 rounding of the 56-bit fraction is not modelled, narrowing to float32 is.",
)

TABLE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^TABLE = "F.DAT"
OBJECT = TABLE
  INTERCHANGE_FORMAT = BINARY
  ROWS = {rows}
  COLUMNS = 2
  ROW_BYTES = {row}
  OBJECT = COLUMN
    NAME = B
    DATA_TYPE = MSB_UNSIGNED_INTEGER
    START_BYTE = 1
    BYTES = 2
  END_OBJECT = COLUMN
  OBJECT = COLUMN
    NAME = A
    DATA_TYPE = {type}
    START_BYTE = 3
    BYTES = {total}
{more}  END_OBJECT = COLUMN
END_OBJECT = TABLE
END
"""
QUBE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^QUBE = "F.DAT"
OBJECT = QUBE
  AXES = 3
  AXIS_NAME = (SAMPLE,LINE,BAND)
  CORE_ITEMS = (1,{rows},1)
  CORE_ITEM_TYPE = {type}
  CORE_ITEM_BYTES = {bytes}
END_OBJECT = QUBE
END
"""
IMAGE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^IMAGE = "F.DAT"
OBJECT = IMAGE
  LINES = {rows}
  LINE_SAMPLES = 1
  SAMPLE_TYPE = {type}
  SAMPLE_BITS = {bits}
END_OBJECT = IMAGE
END
"""


def word(sx, name, width, exps):
    """(stored word, sign, exponent, fraction)"""
    s = sx.int(name + "s", 0, 1)
    e = exps[0] if len(exps) == 1 else sx.choice(name + "e", exps)
    m = sx.int(name + "m", 0, 2 ** (8 * width - 8) - 1)
    return s * 2 ** (8 * width - 1) + e * 2 ** (8 * width - 8) + m, s, e, m


def check_value(sx, got, w, width):
    from fractions import Fraction
    _, s, e, m = w
    f = Fraction(16) ** (e - 64) / 2 ** (8 * width - 8)
    want = (1 - 2 * s) * m * f
    if not sx.symbolic and got - got == 0:
        got = Fraction(got)
    sx.check(sx.near(got, want, Fraction(1, 2 ** (24 if width == 4 else 52))),
             "value of an IBM real")


def table(sx, width, exps, others, items=1, typename="IBM_REAL"):
    sx.const_hash()
    rows = 1 + bool(others)
    ws = [[word(sx, f"x{r}{i}", width, exps if (r, i) == (0, 0) else (others or exps[:1]))
           for i in range(items)] for r in range(rows)]
    bs = [sx.int(f"b{r}", 0, 65535) for r in range(rows)]
    cells = []
    for r in range(rows):
        cells += [(">u2", bs[r])] + [(f">u{width}", w[0]) for w in ws[r]]
    sx.value_file("F", cells)
    more = "" if items == 1 else f"    ITEMS = {items}\n    ITEM_BYTES = {width}\n"
    label = sx.text_file("F.LBL", TABLE.format(
        rows=rows, row=2 + width * items, total=width * items, more=more, type=typename))
    out = sx.run(load, label, "TABLE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value
    names = ["A"] if items == 1 else [f"A_{i}" for i in range(items)]
    sx.check(list(df.columns) == ["B"] + names, "column names")
    sx.check(sx.shape(df)[0] == rows, "number of rows")
    for i, n in enumerate(names):
        col = sx.column(df, n)
        for r in range(rows):
            check_value(sx, sx.elem(col, r), ws[r][i], width)
    other = sx.column(df, "B")
    for r in range(rows):
        sx.check(sx.elem(other, r) == bs[r], "other column is disturbed")


def image(sx, width, exps, others, kind="IMAGE", typename="IBM_REAL"):
    sx.const_hash()
    ws = [word(sx, "x0", width, exps), word(sx, "x1", width, others)]
    sx.value_file("F", [(f">u{width}", w[0]) for w in ws])
    label = sx.text_file("F.LBL", (IMAGE if kind == "IMAGE" else QUBE).format(
        rows=2, bits=8 * width, bytes=width, type=typename))
    out = sx.run(load, label, kind)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    shape = sx.shape(out.value)
    sx.check(shape[-2:] == (2, 1), "shape")
    for r in range(2):
        check_value(sx, sx.elem(out.value, *(0,) * (len(shape) - 2), r, 0),
                    ws[r], width)


F = ["ReadTable", "read_table", "convert_ibm_reals", "ibm_to_np",
     "ibm32_to_np_f32", "ibm64_to_np_f64", "ReadImage", "convert_if_vax"]
B = "all signs and fractions; the stated exponents for the first value and for the others"
S = ["numpy arrays modelled as arrays of solver terms; float64 arithmetic exact"]
ALL = tuple(range(128))


def H(name, fn=table, **params):
    return Harness(name, fn, F, B, S, params=params, enum_cap=300)


HARNESSES = [
    H("short", width=4, exps=ALL, others=None),
    H("short_next_to_one", width=4, exps=ALL[::2], others=(65,)),
    H("short_next_to_small", width=4, exps=ALL[::5], others=(32,)),
    H("short_next_to_tiny", width=4, exps=ALL[24:48:2], others=(30,)),
    H("short_next_to_large", width=4, exps=ALL[::5], others=(96,)),
    H("long", width=8, exps=ALL, others=None),
    H("long_next_to_one", width=8, exps=ALL[::5], others=(65, 31)),
    H("short_items", width=4, exps=(65,) + ALL[::8], others=None, items=2),
    H("long_items", width=8, exps=ALL[::5], others=None, items=2),
    H("short_one_item", width=4, exps=ALL[::9], others=(65,), items=1,
      typename='"IBM REAL"'),
    H("image_short", fn=image, width=4, exps=ALL[::3], others=(65, 10)),
    H("qube_short", fn=image, width=4, exps=ALL[::5], others=(65, 10),
      kind="QUBE"),
    H("qube_long", fn=image, width=8, exps=ALL[::5], others=(65,),
      kind="QUBE", typename='"IBM REAL"'),
    H("image_long", fn=image, width=8, exps=ALL[::5], others=(65,)),
]
