"""C16: special cases leave the products of other missions alone."""
from symex.api import Harness

PROPERTY = "C16"
META = dict(
    title="Special cases for particular missions never affect other products",
    statement="For a product whose DATA_SET_ID, INSTRUMENT_ID, INSTRUMENT_HOST_NAME and SPACECRAFT_NAME are none for which pdr has special cases, its objects (IMAGE, TABLE, SPREADSHEET, TIME_SERIES, QUBE, HEADER, and tables called X_TABLE, in detached files) are listed, found, read and scaled exactly as the label describes them, whatever its other identification statements say: FILE_NAME, PRODUCT_ID, PRODUCT_TYPE, NOTE, DATA_SET_NAME, INSTRUMENT_NAME (short of the full name of an instrument that has special cases) and STANDARD_DATA_PRODUCT_ID, the rest of DATA_SET_ID after the mission's letters, or the name of the data file; and also if they are not in the label at all.",
    quantifier="all values of those statements and file names, of the given lengths",
    why="Over a hundred special cases are recognised by substrings of these values; a condition that is too wide changes how unrelated products are read, and only for values nobody tests.",
    files=["pdr/formats/checkers.py", "pdr/loaders/datawrap.py", "pdr/pdr.py",
           "pdr/loaders/queries.py", "pdr/bit_handling.py"],
    mechanism=[("positions", "pdr/formats/checkers.py:check_special_offset"),
               ("table readers", "pdr/formats/checkers.py:check_special_table_reader"),
               ("format definitions", "pdr/formats/checkers.py:check_special_structure"),
               ("label blocks", "pdr/formats/checkers.py:check_special_block"),
               ("file names", "pdr/formats/checkers.py:check_special_fn"),
               ("objects", "pdr/formats/checkers.py:check_special_objects")],
    note="Identification values symbolic, 3-30 characters each (INSTRUMENT_NAME <= 9); the mission is a made-up one (DATA_SET_ID = \"TST-X-TCAM-?-???-????-V1.0\", ? a letter or digit). The objects themselves are small and fixed. Whether the special cases do the right thing for the products they are for is not covered: that depends on the archives' files.",
)

IDENT = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
WORDS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_ "
SMALL = IDENT + "abcdefghijklmnopqrstuvwxyz"

# name: (definition, data, reading)
IMAGE = """OBJECT = IMAGE
  LINES = 2
  LINE_SAMPLES = 3
  SAMPLE_TYPE = UNSIGNED_INTEGER
  SAMPLE_BITS = 8
  SCALING_FACTOR = 2
  OFFSET = 1
END_OBJECT = IMAGE
"""
QUBE = """OBJECT = QUBE
  AXES = 3
  AXIS_NAME = (SAMPLE, LINE, BAND)
  CORE_ITEMS = (2, 3, 2)
  CORE_ITEM_BYTES = 1
  CORE_ITEM_TYPE = UNSIGNED_INTEGER
END_OBJECT = QUBE
"""
BINARY = """OBJECT = {name}
  INTERCHANGE_FORMAT = BINARY
  ROWS = 2
  ROW_BYTES = 5
  COLUMNS = 2
  OBJECT = COLUMN
    NAME = A
    DATA_TYPE = MSB_UNSIGNED_INTEGER
    START_BYTE = 1
    BYTES = 2
  END_OBJECT = COLUMN
  OBJECT = COLUMN
    NAME = B
    DATA_TYPE = MSB_BIT_STRING
    START_BYTE = 3
    BYTES = 2
    OBJECT = BIT_COLUMN
      NAME = X
      BIT_DATA_TYPE = MSB_UNSIGNED_INTEGER
      START_BIT = 1
      BITS = 7
    END_OBJECT = BIT_COLUMN
    OBJECT = BIT_COLUMN
      NAME = {last}
      BIT_DATA_TYPE = MSB_UNSIGNED_INTEGER
      START_BIT = 9
      BITS = 8
    END_OBJECT = BIT_COLUMN
  END_OBJECT = COLUMN
END_OBJECT = {name}
"""
ASCII = """OBJECT = {name}
  INTERCHANGE_FORMAT = ASCII
  ROWS = 2
  ROW_BYTES = 10
  COLUMNS = 2
  OBJECT = COLUMN
    NAME = A
    DATA_TYPE = ASCII_INTEGER
    START_BYTE = 1
    BYTES = 3
  END_OBJECT = COLUMN
  OBJECT = COLUMN
    NAME = B
    DATA_TYPE = ASCII_INTEGER
    START_BYTE = 5
    BYTES = 4
  END_OBJECT = COLUMN
END_OBJECT = {name}
"""
SHEET = """OBJECT = {name}
  ROWS = 2
  ROW_BYTES = 10
  FIELDS = 2
  OBJECT = FIELD
    NAME = A
    DATA_TYPE = ASCII_INTEGER
    BYTES = 3
  END_OBJECT = FIELD
  OBJECT = FIELD
    NAME = B
    DATA_TYPE = ASCII_INTEGER
    BYTES = 4
  END_OBJECT = FIELD
END_OBJECT = {name}
"""
HEADER = """OBJECT = HEADER
  BYTES = 20
  HEADER_TYPE = TEXT
END_OBJECT = HEADER
"""
ROWS = b" 12, 345\r\n  7,  89\r\n"
INTS = {"A": [12, 7], "B": [345, 89]}
RAW = bytes([1, 2, 6, 7, 99, 3, 4, 8, 9, 98])
BITS = {"A": [0x102, 0x304], "B": [["0000011", "00000111"], ["0000100", "00001001"]]}
PIXELS = bytes([9, 1, 7, 3, 5, 200])
KINDS = {
    "IMAGE": (IMAGE, PIXELS, [[9, 1, 7], [3, 5, 200]]),
    "QUBE": (QUBE, bytes(range(12)), [[[0, 1], [2, 3], [4, 5]], [[6, 7], [8, 9], [10, 11]]]),
    "TABLE": (BINARY, RAW, BITS), "TIME_SERIES": (BINARY, RAW, BITS),
    "DATA_TABLE": (ASCII, ROWS, INTS), "SPECTRUM": (ASCII, ROWS, INTS),
    "SPREADSHEET": (SHEET, ROWS, INTS),
    "HEADER": (HEADER, ROWS, ROWS.decode().replace("\r\n", "\n")),
}


def text_of(sx, key, n):
    chars = {"INSTRUMENT_NAME": WORDS, "NOTE": WORDS, "DATA_SET_NAME": WORDS,
             "STANDARD_DATA_PRODUCT_ID": WORDS, "DATA_SET_ID": PLAIN}.get(key, IDENT)
    s = sx.str(key.lower() + "0", 1, chars.replace(" ", "").replace(".", ""))
    if n > 2:
        s = s + sx.str(key.lower(), n - 2, chars)
    return s + sx.str(key.lower() + "9", 1, chars.replace(" ", "").replace(".", ""))


def right(sx, kind, got, want):
    if isinstance(want, str):
        return got.replace("\r\n", "\n").strip("\n") == want.strip("\n")
    if isinstance(want, dict):
        return [str(c) for c in got.columns] == list(want) and all(
            sx.objects(got, k) == v for k, v in want.items())
    return sx.shape(got) == shape_of(want) and all(
        bool(sx.elem(got, *ix) == at(want, ix)) for ix in product_of(sx.shape(got)))


def shape_of(x):
    return (len(x),) + shape_of(x[0]) if isinstance(x, list) else ()


def product_of(shape):
    from itertools import product as P
    return P(*map(range, shape))


def at(x, ix):
    return at(x[ix[0]], ix[1:]) if ix else x


def product(sx, kind, symbolic, last="Y", file=0, mission=True):
    import pdr
    definition, raw, want = KINDS[kind]
    fn = "X.DAT" if not file else sx.str("fn", file, SMALL.replace(".", "")) \
        + "." + sx.str("ext", 3, "XQZJxqzj")
    label = "PDS_VERSION_ID = PDS3\nRECORD_TYPE = FIXED_LENGTH\nRECORD_BYTES = 10\n"
    if mission:
        label += ('INSTRUMENT_HOST_NAME = "TEST ORBITER"\nINSTRUMENT_ID = TCAM\n'
                  "SPACECRAFT_NAME = TESTER\n")
    label = label + "^" + kind + ' = ("' + fn + '", 2)\n'
    for key, n in symbolic.items():
        v = text_of(sx, key, n)
        if key == "DATA_SET_ID":
            v = "TST-X-TCAM-" + v[:1] + "-" + v[1:4] + "-" + v[4:] + "-V1.0"
        label = label + key + ' = "' + v + '"\n'
    label = label + definition.format(name=kind, last=last) + "END\n"
    data = bytes(range(100, 110)) + raw + bytes(range(110, 150))
    d = sx.directory("dir", [("A.LBL", label.encode("utf-8")), (fn, [data] if raw is not ROWS else data)])
    out = sx.run(pdr.read, sx.path(d, "A.LBL"))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    sx.check([k for k in data.index if k != "LABEL"] == [kind], "objects of the product")
    out = sx.run(data.load, kind)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = getattr(data, kind)
    ok = hasattr(got, "columns") if isinstance(want, dict) else \
        isinstance(got, str) if isinstance(want, str) else hasattr(got, "shape")
    sx.check(ok and right(sx, kind, got, want), "data as the label describes them")
    if kind == "IMAGE" and ok:
        out = sx.run(data.get_scaled, kind)
        if not out.ok:
            sx.fail(f"unexpected exception {out.excname}")
            return
        sx.check(right(sx, kind, out.value, [[2 * x + 1 for x in r] for r in want]),
                 "values as the label describes them")


def H(name, **params):
    return Harness(name, product, F, B, S, params=params, budget=120)


F = "pdr.formats.checkers: all check_special_* functions on the way"
B = "identification values of 3 to 30 characters"
S = "all characters of the identification values"
KEYS = ("DATA_SET_ID", "DATA_SET_NAME", "FILE_NAME", "INSTRUMENT_NAME", "NOTE", "PRODUCT_ID",
        "PRODUCT_TYPE", "STANDARD_DATA_PRODUCT_ID")
ALL = dict(zip(KEYS, (8, 6, 7, 5, 8, 8, 3, 4)))
WIDTHS = {"b": (8, 12, 12, 9, 10, 11, 9, 10), "c": (8, 20, 20, 7, 20, 30, 11, 5),
          "d": (8, 9, 9, 3, 4, 7, 4, 9), "e": (8, 8, 8, 8, 9, 9, 8, 8)}
NAMES = ("TABLE_1", "HEADER_TABLE", "SPECTRUM_TABLE", "WEAREC_TABLE", "ODF3B_TABLE",
         "REMS_REPORT_TABLE", "REMS_SCIENCE_TABLE", "DOPPLER_TABLE", "RANGING_TABLE",
         "ATM_TABLE", "RPWS_TIME_ORDERED_TABLE", "WCHEM_TABLE", "TBL_TABLE", "TELEMETRY_TABLE",
         "ERROR_CONTROL_TABLE", "IMAGE_REPLY_TABLE", "FREQ_OFFSET_TABLE", "I_TEST_TABLE")
for n in NAMES:
    KINDS[n] = (ASCII, ROWS, INTS)
MAIN = [k for k in KINDS if k not in NAMES]
HARNESSES = (
    [H(k.lower(), kind=k, symbolic=ALL) for k in KINDS]
    + [H(f"{k.lower()}_{w}", kind=k, symbolic=dict(zip(KEYS, n))) for k in MAIN
       for w, n in WIDTHS.items()]
    + [H(k.lower() + "_none", kind=k, symbolic={}, mission=False) for k in KINDS]
    + [H(k.lower() + "_file", kind=k, symbolic={}, file=7) for k in MAIN]
    + [H(k.lower() + "_file_b", kind=k, symbolic={}, file=21) for k in MAIN]
)
