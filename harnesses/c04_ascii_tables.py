"""C04: where ASCII tables lie, and what their cells hold."""
from symex.api import Harness
from harnesses.c08_sample_types import load

PROPERTY = "C04"
META = dict(
    title="ASCII tables hold exactly the rows and columns that the label describes",
    statement="An ASCII TABLE or a SPREADSHEET is read from the position its pointer gives (byte, record of RECORD_BYTES bytes, or line of a STREAM file), whatever precedes and follows it in the file, and for exactly the stated number of rows (ROWS of ROW_BYTES plus ROW_PREFIX_BYTES and ROW_SUFFIX_BYTES; for a SPREADSHEET or a STREAM file also RECORDS or BYTES). It has one column per COLUMN or FIELD, named by the label in label order. A column of a fixed-width table holds bytes START_BYTE to START_BYTE + BYTES - 1 of each row (after any row prefix; for ITEMS one column per item), and of a delimited one the fields separated by a comma or by FIELD_DELIMITER, as numbers if they all are numbers, otherwise as text without padding or quotes.",
    quantifier="all positions up to several thousand records or bytes, all amounts of data before and after, all START_BYTE and BYTES of a column that fit the row",
    why="Tests read whole files from byte zero, with the label's own layout.",
    files=["pdr/loaders/queries.py", "pdr/loaders/table.py", "pdr/utils.py",
           "pdr/loaders/_helpers.py", "pdr/pd_utils.py"],
    mechanism=[("position and length", "pdr/loaders/queries.py:table_position"),
               ("length in bytes", "pdr/loaders/queries.py:_table_length"),
               ("lines of a stream", "pdr/loaders/table.py:_interpret_as_ascii"),
               ("column boundaries", "pdr/loaders/table.py:_read_fwf_with_colspecs"),
               ("delimiters", "pdr/loaders/_helpers.py:check_explicit_delimiter")],
    note="The text of the rows is fixed per harness (pandas' own parser is run on it).",
)

HEAD = """PDS_VERSION_ID = PDS3
RECORD_TYPE = {rtype}
{rbytes}^{name} = {pointer}
OBJECT = {name}
{size}{cols}END_OBJECT = {name}
END
"""
COLUMN = """  OBJECT = COLUMN
    NAME = {name}
    DATA_TYPE = {type}
    START_BYTE = {at}
    BYTES = {n}
{more}  END_OBJECT = COLUMN
"""
FIELD = """  OBJECT = FIELD
    NAME = {name}
    DATA_TYPE = {type}
    BYTES = {n}
  END_OBJECT = FIELD
"""

# content: (rows, columns as (name, type, start, bytes[, items]), expected values)
COMMAS = (
    [b'"AB",  12, -3.50\r\n', b'"C ",   7, 14.25\r\n', b'"  ", 105,  0.00\r\n',
     b'"Q,",  -1,  2e3 \r\n'],
    [("S", "CHARACTER", 2, 2), ("I", "ASCII_INTEGER", 6, 4), ("R", "ASCII_REAL", 11, 6)],
    {"S": ["AB", "C", "", "Q"], "I": [12, 7, 105, -1], "R": [-3.5, 14.25, 0.0, 2000.0]})
FIXED = (
    [b"AB   12 -3.50\r\n", b"CDE   7 14.25\r\n", b"F   105  0.00\r\n", b"GH   -1  2e3 \r\n"],
    [("S", "CHARACTER", 1, 3), ("I", "ASCII_INTEGER", 4, 4), ("R", "ASCII_REAL", 9, 5)],
    {"S": ["AB", "CDE", "F", "GH"], "I": [12, 7, 105, -1], "R": [-3.5, 14.25, 0.0, 2000.0]})
TIGHT = (
    [b"0112A\n", b"0327B\n", b"0455C\n", b"9981D\n"],
    [("I", "ASCII_INTEGER", 1, 2), ("J", "ASCII_INTEGER", 3, 2), ("S", "CHARACTER", 5, 1)],
    {"I": [1, 3, 4, 99], "J": [12, 27, 55, 81], "S": list("ABCD")})
ITEMS = (
    [b"K1 10 20 30 x\r\n", b"K2 11 21 31 y\r\n", b"K3 12 22 32 z\r\n", b"K4 13 23 33 w\r\n"],
    [("K", "CHARACTER", 1, 2), ("V", "ASCII_INTEGER", 4, 8, (3, 2, 3)),
     ("L", "CHARACTER", 13, 1)],
    {"K": ["K1", "K2", "K3", "K4"], "V_0": [10, 11, 12, 13], "V_1": [20, 21, 22, 23],
     "V_2": [30, 31, 32, 33], "L": list("xyzw")})
PIPES = (
    [b"AB|12|-3.50\r\n", b"C|7|14.25\r\n", b"DEF|105|0.00\r\n", b"GH|-1|2e3\r\n"],
    COMMAS[1], {"S": ["AB", "C", "DEF", "GH"], "I": [12, 7, 105, -1],
                "R": [-3.5, 14.25, 0.0, 2000.0]})


def delimited(by):
    rows = [r.replace(b"|", by) for r in PIPES[0]]
    return (rows,) + PIPES[1:]


ONE = ([b"  17\r\n", b" 250\r\n", b"  -3\r\n", b"   0\r\n"],
       [("I", "ASCII_INTEGER", 1, 4)], {"I": [17, 250, -3, 0]})
CONTENT = {"commas": COMMAS, "fixed": FIXED, "tight": TIGHT, "items": ITEMS, "one": ONE}


def columns(cols):
    out = ""
    for name, typ, at, n, *items in cols:
        more = ""
        if items:
            more = "    ITEMS = {}\n    ITEM_BYTES = {}\n    ITEM_OFFSET = {}\n".format(*items[0])
        out += COLUMN.format(name=name, type=typ, at=at, n=n, more=more)
    return out


def compare(sx, out, want, n):
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value
    names = list(df.columns)
    sx.check(names == list(want), "column names")
    sx.check(len(df) == n, "number of rows")
    if names != list(want) or len(df) != n:
        return
    for k, v in want.items():
        got = [x if x == x else "" for x in df[k].tolist()]
        sx.check(got == v[:n], "cells of a column")
        kinds = {type(x) for x in got}
        if all(type(x) in (int, float) for x in v):
            sx.check(kinds == {type(v[0])}, "type of a numeric column")


def segs(before, rows, after):
    return [(before, 88), (None, b"".join(rows)), (after, 89)]


def position(sx, content, units, obj="ASCII_TABLE", iff=True, short=0, length="row",
             suf=".TAB"):
    """a fixed-length table somewhere in a file; `short`: the label has fewer
    rows than follow each other in the file"""
    rows, cols, want = CONTENT[content]
    n = len(rows) - short
    width = len(rows[0])
    p = sx.int("p", 1, 5000)
    after = sx.int("after", 0, 5000)
    values = {"p": p}
    if units == "bytes":
        pointer, before, rb = '("F.TAB", {p} <BYTES>)', p - 1, "RECORD_BYTES = 77\n"
    elif units == "records":
        r = sx.int("r", 1, 3000)
        values["r"] = r
        pointer, before, rb = '("F.TAB", {p})', (p - 1) * r, "RECORD_BYTES = {r}\n"
    elif units == "rows":
        pointer, before, rb = '("F.TAB", {p})', (p - 1) * width, f"RECORD_BYTES = {width}\n"
    else:
        sx.assume(p == 1)
        pointer, before, rb = '"F.TAB"', 0, f"RECORD_BYTES = {width}\n"
    sx.pattern_file("F", segs(before, rows, after), suf)
    if suf != ".TAB":
        pointer = pointer.replace("F.TAB", "F" + suf)
    size = ""
    if iff:
        size += "  INTERCHANGE_FORMAT = ASCII\n"
    size += f"  ROWS = {n}\n  COLUMNS = {len(cols)}\n"
    if length == "row":
        size += f"  ROW_BYTES = {width}\n"
    elif length == "bytes":
        size += f"  BYTES = {n * width}\n"
    elif length == "own":
        size = size.replace("ROWS", "RECORDS") + f"  RECORD_BYTES = {width}\n"
    label = sx.text_file("F.LBL", HEAD.format(
        rtype="FIXED_LENGTH", rbytes=rb, name=obj, pointer=pointer, size=size,
        cols=columns(cols)), **values)
    compare(sx, sx.run(load, label, obj), want, n)


def fixes(sx, prefix, suffix):
    """rows with prefix and suffix bytes"""
    rows, cols, want = FIXED
    width = len(rows[0])
    rows = [b"P1 9 "[:prefix].ljust(prefix) + r[:-2] + b" 8 zz"[:suffix] + b"\r\n" for r in rows]
    p, after = sx.int("p", 1, 5000), sx.int("after", 0, 5000)
    sx.pattern_file("F", segs(p - 1, rows, after), ".TAB")
    size = ("  INTERCHANGE_FORMAT = ASCII\n" f"  ROWS = 4\n  COLUMNS = 3\n"
            f"  ROW_BYTES = {width - 2}\n")
    if prefix:
        size += f"  ROW_PREFIX_BYTES = {prefix}\n"
    size += f"  ROW_SUFFIX_BYTES = {suffix + 2}\n"
    label = sx.text_file("F.LBL", HEAD.format(
        rtype="FIXED_LENGTH", rbytes=f"RECORD_BYTES = {len(rows[0])}\n", name="TABLE",
        pointer='("F.TAB", {p} <BYTES>)', size=size, cols=columns(cols)), p=p)
    compare(sx, sx.run(load, label, "TABLE"), want, 4)


def spreadsheet(sx, by, how):
    rows, cols, want = delimited({"COMMA": b",", "TAB": b"\t", "SEMICOLON": b";",
                                  "VERTICAL_BAR": b"|"}[by])
    p, after = sx.int("p", 1, 5000), sx.int("after", 0, 5000)
    total = sum(map(len, rows))
    if how == "bytes":
        pointer, n = '("F.TAB", {p} <BYTES>)', 4
        size, before = f"  BYTES = {total}\n  ROWS = 4\n", p - 1
    elif how == "rest":
        # as long as the file
        sx.assume(after == 0)
        pointer, n = '("F.TAB", {p} <BYTES>)', 4
        size, before = "", p - 1
    size += f"  FIELDS = 3\n  FIELD_DELIMITER = {by}\n"
    sx.pattern_file("F", segs(before, rows, after), ".TAB")
    label = sx.text_file("F.LBL", HEAD.format(
        rtype="STREAM", rbytes="", name="SPREADSHEET", pointer=pointer, size=size,
        cols="".join(FIELD.format(name=c[0], type=c[1], n=c[3]) for c in cols)), p=p)
    compare(sx, sx.run(load, label, "SPREADSHEET"), want, n)


def stream(sx, by, content, key, obj):
    """lines of a stream file; other lines of any length around them"""
    if content:
        rows, cols, want = CONTENT[content]
    else:
        rows, cols, want = delimited({"COMMA": b",", "TAB": b"\t"}[by])
    p, n = sx.int("p", 1, 4), sx.int("n", 1, 4)
    k = [sx.int(f"k{i}", 0, 400) for i in range(3)]
    end = rows[0][-2:] if rows[0].endswith(b"\r\n") else b"\n"
    lines = []
    pc, nc = sx.concrete(p), sx.concrete(n)
    for i in range(pc - 1):
        lines += [(k[i], 88), (None, end)]
    lines.append((None, b"".join(rows)))
    lines += [(k[2], 89), (None, b"," + end)]
    sx.pattern_file("F", lines, ".TAB")
    pointer = '("F.TAB", {p})'
    size = "  " + key + " = {n}\n"
    if by:
        size += f"  FIELDS = 3\n  FIELD_DELIMITER = {by}\n"
        text = "".join(FIELD.format(name=c[0], type=c[1], n=c[3]) for c in cols)
    else:
        size += f"  COLUMNS = {len(cols)}\n"
        text = columns(cols)
    label = sx.text_file("F.LBL", HEAD.format(
        rtype="STREAM", rbytes="", name=obj, pointer=pointer, size=size,
        cols=text), p=p, n=n)
    compare(sx, sx.run(load, label, obj), want, nc)


LETTERS = [b"abcdefghijklm\r\n", b"nopqrstuvwxyz\r\n", b"ABCDEFGHIJKLM\r\n"]
DIGITS = [b"1234567890123\r\n", b"9876543210987\r\n", b"5050505050505\r\n"]


def boundaries(sx, text):
    """a column between any two positions of the row"""
    rows = LETTERS if text else DIGITS
    s, k = sx.int("s", 1, 13), sx.int("k", 1, 13)
    sx.assume(s + k <= 14)
    p = sx.int("p", 1, 300)
    sx.pattern_file("F", segs(p - 1, rows, 0), ".TAB")
    size = ("  INTERCHANGE_FORMAT = ASCII\n  ROWS = 3\n  COLUMNS = 2\n  ROW_BYTES = 15\n")
    typ = "CHARACTER" if text else "ASCII_INTEGER"
    cols = COLUMN.format(name="A", type=typ, at="{s}", n="{k}", more="") + COLUMN.format(
        name="B", type=typ, at=2, n=4, more="")
    label = sx.text_file("F.LBL", HEAD.format(
        rtype="FIXED_LENGTH", rbytes="RECORD_BYTES = 15\n", name="TABLE",
        pointer='("F.TAB", {p} <BYTES>)', size=size, cols=cols), p=p, s=s, k=k)
    out = sx.run(load, label, "TABLE")
    s, k = sx.concrete(s), sx.concrete(k)
    conv = bytes.decode if text else int
    compare(sx, out, {"A": [conv(r[s - 1:s - 1 + k]) for r in rows],
                      "B": [conv(r[1:5]) for r in rows]}, 3)


F = ["ReadTable", "data_start_byte", "table_position", "_table_length",
     "_table_row_position", "_check_delimiter_stream", "parse_table_structure",
     "compute_offsets", "read_table", "_interpret_as_ascii", "head_file",
     "_read_table_from_stringio"]
B = "positions up to 5000 bytes or records of up to 3000 bytes; 3 or 4 rows"
S = ["open -> file of runs and literals with symbolic lengths"]


def H(name, fn, **params):
    return Harness(name, fn, F, B, S, params=params)


HARNESSES = [
    H(f"{c}_{u}", position, content=c, units=u)
    for c in CONTENT for u in ("bytes", "records", "rows", "start")
] + [
    H("short_bytes", position, content="fixed", units="bytes", short=1, obj="TABLE"),
    H("short_records", position, content="commas", units="records", short=2, obj="TABLE"),
    H("short_rows", position, content="tight", units="rows", short=3, obj="ASCII_TABLE"),
    H("length_of_record", position, content="fixed", units="rows", length="record"),
    H("length_in_bytes", position, content="fixed", units="bytes", length="bytes", short=1),
    H("length_of_own_record", position, content="commas", units="bytes", length="own",
      short=1),
    H("gzipped", position, content="commas", units="records", short=1, suf=".TAB.gz"),
    H("bzipped", position, content="tight", units="bytes", suf=".TAB.bz2"),
    H("unmarked", position, content="commas", units="records", obj="TABLE", iff=False),
    H("prefix", fixes, prefix=5, suffix=0),
    H("suffix", fixes, prefix=0, suffix=5),
    H("prefix_suffix", fixes, prefix=3, suffix=4),
] + [
    H(f"spreadsheet_{b.lower()}_{h}", spreadsheet, by=b, how=h)
    for b in ("COMMA", "TAB", "SEMICOLON", "VERTICAL_BAR") for h in ("bytes", "rest")
] + [
    H(f"stream_{b or c}_{k}".lower(), stream, by=b, content=c, key=k, obj=nm)
    for b, c, k, nm in (("COMMA", None, "ROWS", "SPREADSHEET"),
                        ("TAB", None, "RECORDS", "SPREADSHEET"),
                        (None, "commas", "ROWS", "ASCII_TABLE"),
                        (None, "fixed", "ROWS", "ASCII_TABLE"),
                        (None, "tight", "ROWS", "ASCII_TABLE"),
                        (None, "one", "ROWS", "ASCII_TABLE"))
] + [
    H("boundaries_text", boundaries, text=True),
    H("boundaries_digits", boundaries, text=False),
]
