"""C23: HEADER and TEXT objects are the text the label points at."""
from symex.api import Harness

PROPERTY = "C23"
META = dict(
    title="HEADER and TEXT objects are exactly the text the label points at",
    statement="Loading a PDS3 HEADER (any name that is or contains HEADER) gives the text, one character per byte (ISO 8859-1), of the bytes from the start its pointer gives (bytes, records, in STREAM files without record length lines that end with LF, or the start of the file; attached or detached; also in a compressed file) and of the length its definition gives: BYTES, else RECORDS or ROWS times the length of a record; of longer ones only the first 80000 bytes. In a label of RECORD_TYPE STREAM without record length and BYTES, a HEADER without byte position is the lines from the line the pointer gives, as many as RECORDS or ROWS. Loading a TEXT object gives the whole of its file. In all of these texts CR LF and CR are replaced by LF, and nothing else is changed. A HEADER without any length is not loaded.",
    quantifier="all positions and lengths of headers, all contents of up to 6 bytes with every position of the header in them, all texts of up to 6 characters",
    why="What is read depends on units, on the record type and on line endings that straddle the ends of the header; no test reads a HEADER or TEXT object.",
    files=["pdr/loaders/text.py", "pdr/loaders/queries.py", "pdr/loaders/_helpers.py"],
    mechanism=[("position and length", "pdr/loaders/queries.py:table_position"),
               ("reading", "pdr/loaders/text.py:skeptically_load_header"),
               ("line endings", "pdr/loaders/_helpers.py:canonicalize_line_endings")],
    note="Two kinds of files: long ones made of runs of one text byte (all lengths and positions symbolic, header of up to 2^20 bytes) and short ones all of whose bytes are symbolic. TEXT files and headers counted in lines: ASCII characters only. Not claimed: lists of files, PVL headers, PDF files, headers longer than the rest of the file, compressed TEXT files.",
)

HEAD = """PDS_VERSION_ID = PDS3
{rt}^{name} = {target}
OBJECT = {name}
{body}END_OBJECT = {name}
END
"""
FIXED = "RECORD_TYPE = FIXED_LENGTH\nRECORD_BYTES = {rb}\n"
STREAM = "RECORD_TYPE = STREAM\n"


def load(path, name):
    import pdr
    data = pdr.read(path)
    return data.load_from_pointer(name)[name]


def label(sx, name, target, body, rt=FIXED, **values):
    return sx.text_file("T.LBL", HEAD.format(
        name=name, target=target, body=body, rt=rt), **values)


def lines(sx, text):
    """text with CR LF and CR replaced by LF"""
    out, k = "", 0
    while k < len(text):
        if text[k] == "\r":
            out = out + "\n"
            k += 2 if k + 1 < len(text) and text[k + 1] == "\n" else 1
        else:
            out = out + text[k]
            k += 1
    return out


def text_is(sx, out, want):
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
    elif not isinstance(out.value, str):
        sx.fail("no text")
    elif len(out.value) != len(want):
        sx.fail("length of the text")
    else:
        sx.check(out.value == want, "characters of the text")


def long(sx, units, length, name="HEADER", suf=".TXT"):
    """a header in a long file"""
    rb = sx.int("rb", 1, 2**16)
    values = {"rb": rb}
    if units == "bytes":
        p = values["p"] = sx.int("p", 1, 2**30)
        target, start = f'("T{suf}", {{p}} <BYTES>)', p - 1
    elif units == "records":
        p = values["p"] = sx.int("p", 1, 2**16)
        unit = " <RECORDS>" if length == "ROWS" else ""
        target, start = f'("T{suf}", {{p}}{unit})', (p - 1) * rb
    else:
        target, start = f'"T{suf}"', 0
    n = values["n"] = sx.int("n", 1, 2**20 if length == "BYTES" else 2**8)
    body = f"  {length} = {{n}}\n"
    size = n
    if length == "BYTES_OF_RECORDS":
        m = values["m"] = sx.int("m", 1, 2**8)
        body = "  RECORDS = {m}\n  BYTES = {n}\n"
    elif length == "ROWS_OF_BYTES":
        r = values["r"] = sx.int("r", 1, 2**10)
        body, size = "  ROWS = {n}\n  ROW_BYTES = {r}\n", n * r
    elif length != "BYTES":
        size = n * rb
    tail = sx.int("tail", 0, 2**20)
    fn = sx.pattern_file("T", [(start, 65), (size, 66), (tail, 67)], suf)
    out = sx.run(load, label(sx, name, target, body, **values), name)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    if not isinstance(out.value, str):
        sx.fail("no text")
        return
    want = sx.min(size, 80000)
    sx.check(sx.text_range(out.value, fn, want, want, start), "text of the header")


CHARS = "".join(map(chr, range(256)))
ASCII = "".join(map(chr, range(128)))


def short(sx, n, stream=False, gz=False):
    """a header anywhere in a short file with any bytes"""
    text = sx.str("text", n, CHARS)
    sx.value_file("T", [("u1", c) for c in sx.codes(text)],
                  ".TXT.gz" if gz else ".TXT")
    a = sx.choice("a", list(range(n)))
    m = sx.choice("m", list(range(1, n - a + 1)))
    out = sx.run(load, label(
        sx, "HEADER", f'("T.TXT{".gz" if gz else ""}", {a + 1} <BYTES>)',
        f"  BYTES = {m}\n", STREAM if stream else FIXED, rb=7), "HEADER")
    text_is(sx, out, lines(sx, text[a:a + m]))


def attached(sx, units):
    """a header in the file of the label"""
    import re
    body = "ABC\r\n d\rx\xe9 \nEND\r\n"
    text = HEAD.format(rt="RECORD_TYPE = FIXED_LENGTH\nRECORD_BYTES = 10\n", name="HEADER",
                       target="{t}", body="  BYTES = 14\n").replace("\n", "\r\n")
    n = 10 * (len(text) // 10 + 2)
    text = text.replace("{t}", f"{n} <BYTES>" if units == "bytes" else str(n // 10 + 1))
    start = n - 1 if units == "bytes" else n
    text = text.encode() + b" " * (start - len(text))
    pad = sx.int("pad", 0, 1000)
    fn = sx.pattern_file("T", [(None, text + body.encode("latin-1")), (pad, 255)], ".IMG")
    out = sx.run(load, fn, "HEADER")
    text_is(sx, out, re.sub("\r\n?", "\n", body[:14]))


def counted(sx, n, word, pointer, name="HEADER"):
    """a header counted in lines"""
    text = sx.str("text", n, ASCII)
    sx.value_file("T", [("u1", c) for c in sx.codes(text)], ".TXT")
    first = sx.choice("first", [1, 2]) if pointer else 1
    rows = sx.choice("rows", [1, 2])
    out = sx.run(load, label(
        sx, name, f'("T.TXT", {first})' if pointer else '"T.TXT"',
        f"  {word} = {rows}\n", STREAM), name)
    want, k = "", 1
    for c in range(len(plain := lines(sx, text))):
        if first <= k < first + rows:
            want = want + plain[c]
        if plain[c] == "\n":
            k += 1
    text_is(sx, out, want)


def whole(sx, n, name, pointer):
    """a TEXT object"""
    text = sx.str("text", n, ASCII)
    sx.value_file("T", [("u1", c) for c in sx.codes(text)], ".TXT")
    out = sx.run(load, label(
        sx, name, '("T.TXT", 1)' if pointer else '"T.TXT"', "  NOTE = N\n", STREAM), name)
    text_is(sx, out, lines(sx, text))


def whole_long(sx):
    """a TEXT object of any length"""
    n, m = sx.int("n", 0, 2**30), sx.int("m", 1, 2**30)
    fn = sx.pattern_file("T", [(n, 65), (m, 10)], ".TXT")
    out = sx.run(load, label(sx, "TEXT", '"T.TXT"', "  NOTE = N\n", STREAM), "TEXT")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
    elif not isinstance(out.value, str):
        sx.fail("no text")
    else:
        sx.check(sx.text_range(out.value, fn, n + m, n + m, 0), "the whole text")


def line_bytes(sx, n):
    """bytes from a line of a stream file"""
    text = sx.str("text", n, CHARS)
    sx.value_file("T", [("u1", c) for c in sx.codes(text)], ".TXT")
    first = sx.choice("first", [1, 2])
    out = sx.run(load, label(
        sx, "HEADER", f'("T.TXT", {first})', "  RECORDS = 1\n  BYTES = 2\n", STREAM), "HEADER")
    start = 0
    if first == 2:
        while start < n and text[start] != "\n":
            start += 1
        start += 1
    sx.assume(start + 2 <= n)
    text_is(sx, out, lines(sx, text[start:start + 2]))


def lengthless(sx):
    """a header of unknown length is not loaded"""
    import warnings
    p = sx.int("p", 1, 100)
    sx.pattern_file("T", [(p + 100, 65)], ".TXT")
    fn = label(sx, "HEADER", '("T.TXT", {p} <BYTES>)', "  NOTE = N\n", rb=7, p=p)
    out = sx.run(load, fn, "HEADER")
    sx.check(not out.ok or not isinstance(out.value, str), "no text without length")


F = ["Data.__init__", "pointer_to_loader", "ReadHeader", "ReadText", "softquery",
     "table_position", "_table_length", "_table_row_position", "_check_delimiter_stream",
     "data_start_byte", "read_header", "skeptically_load_header", "read_text",
     "ignore_if_pdf", "canonicalize_line_endings", "decompress"]
B = "headers of 1..2^20 bytes or 1..2^8 records of 1..2^16 bytes; short files of <= 6 bytes"
S = ["a text that consists of runs of one byte is represented by its position"]


def H(title, fn, **params):
    return Harness(title, fn, F, B, S, params=params)


HARNESSES = [
    H("bytes", long, units="bytes", length="BYTES"),
    H("records", long, units="records", length="RECORDS"),
    H("records_bytes", long, units="records", length="BYTES"),
    H("bytes_records", long, units="bytes", length="RECORDS"),
    H("rows", long, units="bytes", length="ROWS"),
    H("record_units", long, units="records", length="ROWS"),
    H("row_bytes", long, units="records", length="ROWS_OF_BYTES"),
    H("both", long, units="start", length="BYTES_OF_RECORDS"),
    H("start", long, units="start", length="BYTES", name="IMAGE_HEADER"),
    H("gz", long, units="bytes", length="BYTES", suf=".TXT.gz"),
    H("short", short, n=5),
    H("short_stream", short, n=3, stream=True),
    H("short_gz", short, n=3, gz=True),
    H("attached", attached, units="bytes"),
    H("attached_records", attached, units="records"),
    H("lines", counted, n=5, word="ROWS", pointer=True),
    H("lines_records", counted, n=4, word="RECORDS", pointer=True, name="TABLE_HEADER"),
    H("lines_start", counted, n=4, word="ROWS", pointer=False),
    H("text", whole, n=5, name="TEXT", pointer=False),
    H("text_pointer", whole, n=4, name="DESCRIPTION_TEXT", pointer=True),
    H("text_long", whole_long),
    H("line_bytes", line_bytes, n=4),
    H("no_length", lengthless),
]
