"""C18: PDS4 tables."""
import itertools

from symex.api import Harness
from harnesses.c17_pds4_arrays import (
    product, TYPES, IDENT, NAME, array, axis, check_array)

PROPERTY = "C18"
META = dict(
    title="PDS4 tables: every cell is what the label's record layout says the file holds",
    statement="For a PDS4 label, data[name] of a Table_Binary, Table_Character or Table_Delimited is a DataFrame with a row per record and a column per field, in label order and under the field's name; a field within an unnamed group has one column per repetition, F_0, F_1, ..., the inner group's repetitions fastest. The cell of record r is, in a binary or character table, the number or text of the field's data_type in the field_length bytes at offset + r * record_length + field_location - 1, to which each group around it adds group_location - 1 + k * group_length / repetitions for repetition k. In a delimited table the records start at offset, end with the record_delimiter and hold one value per column, repetitions of a group in sequence, separated by the field_delimiter; a value between double quotes may contain the delimiter and is stripped of the quotes; an empty number or truth value is a missing value (NaN), an empty text ''. Neither what precedes the table nor what follows its records, or its object_length, changes it. Of several tables and arrays in one file or in several File_Areas each keeps its own file, offset and layout, and is called by its local_identifier, else its name (blanks as underscores), else TABLE_n or ARRAY_n; those that share one are told apart by _0, _1, ...",
    quantifier="binary: all offsets to 2^40, field and group locations, group lengths and record lengths to 2^20, every fixed-size numeric data type, 1 to 3 records; character: all gaps of up to 4096 bytes between fixed texts; delimited: all offsets, all printable characters in texts of up to 3 characters and all digits in numbers of up to 2, each delimiter; groups within one other group",
    why="The tests open no PDS4 table. Which byte a cell comes from depends on up to eight numbers of the label together, and what a delimited cell is on every character of the record.",
    files=["pdr/pdr.py", "pdr/pd_utils.py", "pdr/pds4_tools/reader/read_tables.py",
           "pdr/pds4_tools/reader/table_objects.py", "pdr/pds4_tools/reader/data_types.py",
           "pdr/pds4_tools/reader/data.py", "pdr/pds4_tools/reader/core.py",
           "pdr/pds4_tools/reader/general_objects.py"],
    mechanism=[("loading", "pdr/pdr.py:_load_pds4"),
               ("flattening", "pdr/pd_utils.py:structured_array_to_df, rectified_rec_df"),
               ("reading the bytes", "pdr/pds4_tools/reader/read_tables.py:_read_table_byte_data"),
               ("fixed-width cells", "pdr/pds4_tools/reader/read_tables.py:_extract_fixed_width_field_data"),
               ("delimited cells", "pdr/pds4_tools/reader/read_tables.py:_get_delimited_records_and_start_bytes, _extract_delimited_field_data"),
               ("fields and groups", "pdr/pds4_tools/reader/table_objects.py:TableManifest"),
               ("data types", "pdr/pds4_tools/reader/data_types.py:data_type_convert_table_binary, data_type_convert_table_ascii")],
    note="The XML text is concrete apart from its numbers. Texts of character and binary tables are compared without their padding. Not claimed: named groups' column names, groups within two groups, field names that occur twice, names like GROUP_1, records with too few or too many values, scaling of fields, quotes within quoted values, tables within FITS files.",
)


def load(path, *names):
    import pdr
    data = pdr.read(path, debug=True)
    return [data[n] for n in names]


def table(kind, ident, offset, records, length, fields):
    return f"""<Table_{kind}>
{ident}<offset unit="byte">{offset}</offset>
<records>{records}</records>
<Record_{kind}>
<fields>{len(fields)}</fields>
<groups>0</groups>
<record_length unit="byte">{length}</record_length>
{"".join(fields)}</Record_{kind}>
</Table_{kind}>
"""


def field(kind, name, loc, dtype, length, extra=""):
    return f"""<Field_{kind}>
<name>{name}</name>
<field_location unit="byte">{loc}</field_location>
<data_type>{dtype}</data_type>
<field_length unit="byte">{length}</field_length>
{extra}</Field_{kind}>
"""


def group(kind, reps, loc, length, fields, ident=""):
    return f"""<Group_Field_{kind}>
{ident}<repetitions>{reps}</repetitions>
<fields>{len(fields)}</fields>
<groups>0</groups>
<group_location unit="byte">{loc}</group_location>
<group_length unit="byte">{length}</group_length>
{"".join(fields)}</Group_Field_{kind}>
"""


I, R, S = "ASCII_Integer", "ASCII_Real", "ASCII_String"
ALL = list(range(len(TYPES)))


class Layout:
    """builds the fields of a record; cols: (name, position, dtype)"""

    def __init__(self, sx):
        self.sx, self.values, self.cols, self.needs = sx, {}, [], []

    def num(self, name, lo, hi):
        v = self.values[name] = self.sx.int(name, lo, hi)
        return v

    def put(self, name, value):
        self.values[name] = value
        return "{%s}" % name

    def fields(self, spec, length, base=0, prefix="", path=()):
        """spec: type index, or (repetitions, spec) for a group; length: of
        what contains them"""
        out = []
        for i, s in enumerate(spec):
            tag = f"{prefix}{i}"
            loc = self.num(f"loc{tag}", 1, 2**20)
            if s == "any" or isinstance(s, int):
                dtype, dt = TYPES[self.sx.choice(f"type{tag}", ALL) if s == "any" else s]
                size = int(dt.lstrip("<>")[1:])
                self.sx.assume(loc - 1 + size <= length)
                out.append(field("Binary", f"F{tag}", f"{{loc{tag}}}", dtype, size))
                self.cols.append((f"F{tag}", base + loc - 1, path, dt))
            else:
                reps, inner = s
                step = self.num(f"step{tag}", 1, 2**20)
                self.sx.assume(loc - 1 + reps * step <= length)
                body = self.fields(inner, step, base + loc - 1, tag,
                                   path + ((reps, step),))
                out.append(group("Binary", reps, f"{{loc{tag}}}",
                                 self.put(f"glen{tag}", reps * step), body))
        return out


def spread(cols):
    """names and positions of the columns of a record"""
    out = []
    for name, pos, path, dt in cols:
        places = [pos]
        for reps, step in path:
            places = [p + k * step for p in places for k in range(reps)]
        if not path:
            out.append((name, pos, dt))
        else:
            out += [(f"{name}_{k}", p, dt) for k, p in enumerate(places)]
    return out


def numbers(sx, df, cols, records, path, start, length):
    sx.check(list(df.columns) == [c[0] for c in cols], "columns")
    sx.check(sx.shape(df) == (records, len(cols)), "shape")
    for name, pos, dt in cols:
        for r in range(records):
            sx.check(sx.cell(df, r, name, path, start + r * length + pos, dt),
                     "cell is not the file's value")


def binary(sx, spec, records=2):
    lay = Layout(sx)
    start = lay.num("start", 0, 2**40)
    length = lay.num("length", 1, 2**20)
    fields = lay.fields(spec, length)
    size = sx.int("size", 0, 2**62)
    sx.assume(size >= start + records * length)
    path = sx.file("Q", size, ".DAT")
    body = table("Binary", IDENT.format("TAB"), "{start}", records, "{length}", fields)
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]), **lay.values)
    out = sx.run(load, label, "TAB")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    numbers(sx, out.value[0], spread(lay.cols), records, path, start, length)


# ------------------------------------------------------- fixed-width texts
def meaning(dtype, text):
    if dtype.startswith("ASCII_Numeric_Base"):
        return int(text, int(dtype[len("ASCII_Numeric_Base"):]))
    if "Integer" in dtype:
        return int(text)
    if dtype == "ASCII_Real":
        return float(text)
    if dtype == "ASCII_Boolean":
        return text.strip() in (b"1", b"true")
    return text.decode("utf-8").strip()


def holds(sx, df, cols, records):
    """cols: (name, dtype, texts of the records)"""
    sx.check(list(df.columns) == [c[0] for c in cols], "columns")
    sx.check(sx.shape(df) == (records, len(cols)), "shape")
    for name, dtype, texts in cols:
        for got, text in zip(sx.objects(df, name), texts):
            want = meaning(dtype, text)
            if isinstance(want, str):
                sx.check(isinstance(got, str) and got.strip() == want, "text cell")
            else:
                sx.check(sx.and_(got == want), "cell is not the file's value")


def chars(sx, spec, kind="Character", order=None, before=0, fill=b"\n"):
    """spec: (name, dtype, texts), or for a group (repetitions, (name, dtype,
    texts), ...) with the texts of a record's repetitions in sequence"""
    vals, gaps, pieces, fields, cols = {}, [], None, [], []

    def gap():
        g = sx.int(f"gap{len(gaps)}", 0, 2**12)
        gaps.append(g)
        return g

    def known(name, v):
        vals[name] = v
        return "{%s}" % name
    records = len(spec[0][2] if isinstance(spec[0][0], str) else spec[0][1][2]) // (
        1 if isinstance(spec[0][0], str) else spec[0][0])
    pieces = [[] for _ in range(records)]
    at = 0
    for i, s in enumerate(spec):
        reps, inner = (s[0], s[1:]) if isinstance(s[0], int) else (1, (s,))
        g = gap()
        for p in pieces:
            p.append((g, fill[0]))
        at = at + g
        base, pos, inside, body = at, 0, [], []
        for j, (name, dtype, texts) in enumerate(inner):
            h = gap() if s[0] == reps else 0
            width = len(texts[0])
            pos = pos + h
            loc = pos + 1 if s[0] == reps else base + 1
            inside.append((h, texts))
            body.append(field(kind, name, known(f"loc{i}{j}", loc), dtype, width))
            pos = pos + width
            cols.append([(f"{name}_{k}" if s[0] == reps else name, dtype, texts[k::reps])
                         for k in range(reps)])
        for r, p in enumerate(pieces):
            for k in range(reps):
                for h, texts in inside:
                    if s[0] == reps:
                        p.append((h, fill[0]))
                    p.append((None, texts[r * reps + k]))
        at = at + pos * reps
        if s[0] == reps:
            fields.append(group(kind, reps, known(f"gl{i}", base + 1),
                                known(f"glen{i}", reps * pos), body))
        else:
            fields += body
    end = gap()
    vals["length"] = at + end
    start = vals["start"] = sx.int("start", before, 2**16)
    segs = [(start, ord("7"))]
    for p in pieces:
        segs += p + [(end, ord("\n"))]
    segs.append((sx.int("after", 0, 2**12), ord("7")))
    sx.pattern_file("Q", segs, ".DAT")
    order = order or range(len(fields))
    body = table(kind, IDENT.format("TAB"), "{start}", records, "{length}",
                 [fields[i] for i in order])
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]), **vals)
    out = sx.run(load, label, "TAB")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    holds(sx, out.value[0], [c for i in order for c in cols[i]] if all(
        isinstance(s[0], str) for s in spec) else [c for cs in cols for c in cs], records)


# ------------------------------------------------------- delimited texts
DELIMITERS = {b",": "Comma", b"\t": "Horizontal Tab", b";": "Semicolon",
              b"|": "Vertical Bar"}
ENDS = {b"\n": "Line-Feed", b"\r\n": "Carriage-Return Line-Feed"}


def dfield(name, dtype):
    return f"""<Field_Delimited>
<name>{name}</name>
<data_type>{dtype}</data_type>
</Field_Delimited>
"""


def dgroup(reps, fields):
    return f"""<Group_Field_Delimited>
<repetitions>{reps}</repetitions>
<fields>{len(fields)}</fields>
<groups>0</groups>
{"".join(fields)}</Group_Field_Delimited>
"""


def delimited(records, fields, by, end, offset=0, extra="", more=""):
    return f"""<Table_Delimited>
{IDENT.format("TAB")}<offset unit="byte">{offset}</offset>
{extra}<parsing_standard_id>PDS DSV 1</parsing_standard_id>
<records>{records}</records>
<record_delimiter>{ENDS[end]}</record_delimiter>
<field_delimiter>{DELIMITERS[by]}</field_delimiter>
<Record_Delimited>
<fields>{len(fields)}</fields>
<groups>0</groups>
{more}{"".join(fields)}</Record_Delimited>
</Table_Delimited>
"""


def cell_text(sx, name, kind, by):
    """(what the file holds, what it means)"""
    if not isinstance(kind, str):
        return [kind], kind
    n = int(kind[1:])
    if kind[0] == "d":
        text = sx.bytes(name, n, 48, 57)
    else:
        text = sx.bytes(name, n, 32, 126)
        for i in range(n):
            if kind[0] == "q" or i == 0:
                sx.assume(text[i] != ord('"'))
            if kind[0] == "u":
                sx.assume(text[i] != by[0])
    out = [("u1", text[i]) for i in range(n)]
    return ([b'"'] + out + [b'"'] if kind[0] == "q" else out), text


def cells(sx, types, rows, by=b",", end=b"\r\n", last=b""):
    """rows: kinds of cells (q: quoted, u: unquoted, d: digits; number of
    characters), or literal bytes"""
    data, want = [], []
    for r, row in enumerate(rows):
        for c, kind in enumerate(row):
            raw, text = cell_text(sx, f"c{r}{c}", kind, by)
            data += raw + ([by] if c + 1 < len(row) else [end])
            want.append((kind, text))
    sx.value_file("Q", data + [last], ".DAT")
    names = [f"F{i}" for i in range(len(types))]
    body = delimited(len(rows), [dfield(n, t) for n, t in zip(names, types)], by, end)
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]))
    out = sx.run(load, label, "TAB")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value[0]
    sx.check(list(df.columns) == names, "columns")
    sx.check(sx.shape(df) == (len(rows), len(names)), "shape")
    for c, (name, dtype) in enumerate(zip(names, types)):
        for got, (kind, text) in zip(sx.objects(df, name), want[c::len(names)]):
            if dtype in ("ASCII_String", "UTF8_String"):
                sx.check(sx.eq(got, text.decode("ascii")), "text cell")
            elif isinstance(kind, bytes) and not text.strip():
                sx.check(got != got, "an empty cell is a missing value")
            else:
                value = meaning(dtype, text) if isinstance(kind, bytes) else sx.int_of(text)
                sx.check(sx.and_(got == value), "cell is not the file's value")


def grouped(sx, spec, records=2, by=b",", end=b"\r\n"):
    """spec: field types, or (repetitions, spec) for a group"""
    cols, data = [], []

    def declare(spec, prefix, reps):
        out = []
        for i, s in enumerate(spec):
            if isinstance(s, str):
                cols.append((f"F{prefix}{i}", s, reps))
                out.append(dfield(f"F{prefix}{i}", s))
            else:
                out.append(dgroup(s[0], declare(s[1], f"{prefix}{i}", reps + (s[0],))))
        return out

    held = {}

    def fill(spec, r, prefix, nth):
        for i, s in enumerate(spec):
            if isinstance(s, str):
                name = f"F{prefix}{i}"
                raw, text = cell_text(sx, f"{name}r{r}" + "".join(map(str, nth)),
                                      "d1" if s == I else "q1", by)
                data.extend(([by] if data and data[-1] != end else []) + raw)
                held[name + "_" * bool(nth) + "_".join(map(str, nth)), r] = text
            else:
                for k in range(s[0]):
                    fill(s[1], r, f"{prefix}{i}", nth + (k,))
    for r in range(records):
        fill(spec, r, "", ())
        data.append(end)
    body = delimited(records, declare(spec, "", ()), by, end)
    sx.value_file("Q", data, ".DAT")
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]))
    out = sx.run(load, label, "TAB")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value[0]
    want = []
    for name, dtype, reps in cols:
        for k, nth in enumerate(itertools.product(*[range(n) for n in reps])):
            want.append((f"{name}_{k}" if reps else name, dtype,
                         name + "_" * bool(reps) + "_".join(map(str, nth))))
    sx.check(list(df.columns) == [w[0] for w in want], "columns")
    sx.check(sx.shape(df) == (records, len(want)), "shape")
    for name, dtype, key in want:
        for r, got in enumerate(sx.objects(df, name)):
            text = held[key, r]
            sx.check(sx.and_(got == sx.int_of(text)) if dtype == I else
                     sx.eq(got, text.decode("ascii")), "cell is not the file's value")


def place(sx, bound=None, by=b"|", end=b"\n"):
    """where a delimited table lies; what follows it is none of its business"""
    rows = [b"12|ab|1.5", b"-7||2e2", b"305|c d|-.25"]
    text = b"".join(r + end for r in rows)
    start = sx.int("start", 0, 2**40)
    after = sx.int("after", 0, 2**40)
    vals, extra, more = dict(start=start), "", ""
    if bound == "object_length":
        vals["n"] = sx.int("n", len(text), 2**40)
        extra = '<object_length unit="byte">{n}</object_length>\n'
    elif bound == "maximum_record_length":
        vals["n"] = sx.int("n", max(len(r) + len(end) for r in rows), 2**30)
        more = '<maximum_record_length unit="byte">{n}</maximum_record_length>\n'
    sx.pattern_file("Q", [(start, ord("7")), (None, text), (after, ord("7"))], ".DAT")
    body = delimited(len(rows), [dfield("A", I), dfield("B", S), dfield("C", R)],
                     by, end, "{start}", extra, more)
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]), **vals)
    out = sx.run(load, label, "TAB")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    holds(sx, out.value[0], [("A", I, [b"12", b"-7", b"305"]), ("B", S, [b"ab", b"", b"c d"]),
                             ("C", R, [b"1.5", b"2e2", b"-.25"])], len(rows))


def several(sx, files, idents):
    """two binary tables and an array"""
    start = [sx.int(f"s{i}", 0, 2**30) for i in range(3)]
    length = [sx.int(f"l{i}", 12, 2**12) for i in range(2)]
    loc = [sx.int(f"p{i}", 1, 2**12) for i in range(2)]
    n = sx.int("n", 1, 2**12)
    vals, bodies, keys = dict(n=n), [], []
    types = ["SignedMSB4", "IEEE754LSBDouble"]
    dts = [">i4", "<f8"]
    size = sx.int("size", 0, 2**62)
    for i in range(3):
        vals[f"s{i}"] = start[i]
        ident = {"id": IDENT.format(f"obj {i}") + NAME.format("other"),
                 "name": NAME.format(f"obj {i}"), "none": "",
                 "same": NAME.format("ob j")}[idents[i]]
        keys.append({"none": ("TABLE_0", "ARRAY_0", "TABLE_1")[i],
                     "same": f"ob_j_{idents[:i].count('same')}"}.get(idents[i], f"obj_{i}"))
        if i == 1:
            sx.assume(size >= start[i] + 2 * n)
            bodies.append(array("Array", ident, "{s1}", "SignedLSB2", [axis("X", "{n}", 1)]))
            continue
        k = i // 2
        sx.assume(loc[k] - 1 + int(dts[k][-1]) <= length[k])
        sx.assume(size >= start[i] + (k + 1) * length[k])
        vals[f"l{k}"], vals[f"p{k}"] = length[k], loc[k]
        bodies.append(table("Binary", ident, "{s%d}" % i, k + 1, "{l%d}" % k, [
            field("Binary", "A", "{p%d}" % k, types[k], int(dts[k][-1]))]))
    paths = {f: sx.file(f, size, ".DAT") for f in sorted(set(files))}
    areas = []
    for f, b in zip(files, bodies):
        if areas and areas[-1][0] == f + ".DAT":
            areas[-1][1].append(b)
        else:
            areas.append((f + ".DAT", [b]))
    label = sx.text_file("A.xml", product(areas), **vals)
    out = sx.run(load, label, *keys)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    for k, i in enumerate((0, 2)):
        numbers(sx, out.value[i], [("A", loc[k] - 1, dts[k])], k + 1,
                paths[files[i]], start[i], length[k])
    check_array(sx, out.value[1], paths[files[1]], (n,), start[1], "<i2")


def long(sx, lengths):
    """records of many characters"""
    n = sx.choice("n", lengths)
    text = b"Lorem ipsum; dolor " * (max(lengths) // 19 + 1)
    head, tail = sx.bytes("head", 1, 48, 57), sx.bytes("tail", 1, 48, 57)
    data = [("u1", head[0]), b"," + text[:n - 4] + b",", ("u1", tail[0]), b"\n", b"7,x,8\n"]
    sx.value_file("Q", data, ".DAT")
    body = delimited(2, [dfield("A", I), dfield("B", S), dfield("C", I)], b",", b"\n")
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]))
    out = sx.run(load, label, "TAB")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value[0]
    for name, want in (("A", (sx.int_of(head), 7)), ("C", (sx.int_of(tail), 8))):
        for got, v in zip(sx.objects(df, name), want):
            sx.check(sx.and_(got == v), "cell is not the file's value")
    for got, v in zip(sx.objects(df, "B"), (text[:n - 4].decode(), "x")):
        sx.check(sx.eq(got, v), "text cell")


F = ["Data._init_pds4", "Data._load_pds4", "pds4_read", "read_structures", "Label.from_file",
     "Meta_TableStructure.from_label", "read_table", "read_table_data", "_read_table_byte_data",
     "TableManifest.from_label", "new_table", "structured_array_to_df", "rectified_rec_df",
     "xml_to_dict"]
FB = F + ["_extract_fixed_width_field_data", "data_type_convert_table_binary",
          "data_type_convert_array", "pds_to_numpy_type"]
FC = F + ["_extract_fixed_width_field_data", "data_type_convert_table_ascii",
          "decode_bytes_to_unicode"]
FD = F + ["_get_delimited_records_and_start_bytes", "_extract_delimited_field_data",
          "TableManifest.get_field_offset", "TableManifest.get_field_skip_factors",
          "data_type_convert_table_ascii", "decode_bytes_to_unicode"]
B = "offset < 2^40, locations and lengths <= 2^20, 1 to 3 records, groups of 2 or 3 in up to one other"
BC = "offset < 2^16, gaps of up to 4096 bytes between the fixed texts, 2 records"
BD = "1 to 3 records; texts of 1 to 3 printable characters, numbers of 1 or 2 digits, fixed reals"
BP = "offset and bytes after the table < 2^40; fixed rows"
XML = "the XML parser runs on concrete text with tokens for the numbers"
SB = ["slices of an opaque file joined and viewed as numbers stay 'the number at this offset'", XML]
SC = ["runs of equal bytes of any length around literal texts", XML]
SD = ["each character of a cell is a solver variable; splitting at delimiters forks on it", XML]
SP = SC


def BN(name, *spec, **params):
    return Harness(name, binary, FB, B, SB, params=dict(spec=spec, **params))


def CH(name, spec, **params):
    return Harness("chars_" + name, chars, FC, BC, SC, params=dict(spec=spec, **params))




def CL(name, types, *rows, **params):
    return Harness("cells_" + name, cells, FD, BD, SD, params=dict(
        types=types, rows=rows, **params))


def GR(name, *spec, **params):
    return Harness("grouped_" + name, grouped, FD, BD, SD, params=dict(spec=spec, **params))


def PL(name, **params):
    return Harness("place_" + name, place, FD, BP, SP, params=params)


def SV(name, files, idents):
    return Harness("several_" + name, several, FB, B, SB, params=dict(
        files=files, idents=idents))


HARNESSES = [
    BN("types", "any", 13),
    BN("three", 0, 13, 16, records=3),
    BN("one_record", 4, 19, records=1),
    BN("group", 0, (2, (8,)), 13),
    BN("group_types", (2, ("any", 7))),
    BN("group_two", (3, (8, 1)), 13),
    BN("groups", (2, (1,)), (2, (15,))),
    BN("nested_uneven", (3, ((2, (13,)),)), records=1),
    BN("nested_pair", (2, ((3, (8,)), 12)), records=1),
    BN("nested", 13, (2, (0, (2, (1, 14))))),
    CH("integers", [("A", "ASCII_Integer", [b" 12", b"-07"]),
                    ("B", "ASCII_NonNegative_Integer", [b"65535", b"00001"])]),
    CH("reals", [("A", "ASCII_Real", [b" 12.5", b"-2e-3"]),
                 ("B", "ASCII_String", [b"ab c", b" def"])]),
    CH("bases", [("A", "ASCII_Numeric_Base16", [b"FF", b"0a"]),
                 ("B", "ASCII_Numeric_Base8", [b"017", b"777"]),
                 ("C", "ASCII_Numeric_Base2", [b"101", b"010"])]),
    CH("others", [("A", "ASCII_Boolean", [b"true ", b"false"]),
                  ("B", "ASCII_Date_YMD", [b"2012-01-02", b"2013-11-12"]),
                  ("C", "UTF8_String", ["é1".encode(), b"xyz"])]),
    CH("group", [("A", "ASCII_Integer", [b"1", b"2"]),
                 (2, ("B", "ASCII_Integer", [b"10", b"20", b"30", b"40"]),
                  ("C", "ASCII_Real", [b"1.5", b"2.5", b"3.5", b"4.5"]))]),
    CH("disorder", [("A", "ASCII_Integer", [b"1", b"2"]),
                    ("B", "ASCII_Integer", [b"10", b"20"]),
                    ("C", "ASCII_Real", [b"1.5", b"-.5"])], order=(2, 0, 1)),
    CH("binary_text", [("A", "ASCII_Integer", [b"1", b"2"]),
                       ("B", "ASCII_String", [b"10 ", b"q20"])], kind="Binary"),
    CL("quoted", (S, S), ("q2", "u2"), ("u1", "q2")),
    CL("several_quoted", (S, S, S), ("q2", "q1", "q1"), by=b"|"),
    CL("tabs", (S, I), ("u2", "d2"), ("u0", "d1"), by=b"\t", end=b"\n", last=b"x\ty"),
    CL("quoted_numbers", (I, S, I), ("d2", "q3", "d1"), by=b";"),
    CL("mixed", (I, S, R), ("d2", "u1", b"-1.5e3"), (b"-12", "q2", b"2.25"), end=b"\n"),
    CL("empty", (I, R, S), ("d2", b"", "u1"), (b"", b"-0.5", b""), (b" ", b"3", "q1")),
    CL("empty_numbers", (R, I), (b"", b""), (b"2.5", "d1"), by=b"|"),
    CL("booleans", ("ASCII_Boolean", I), (b"true", b"1"), (b"0", b"2"), (b"false", "d1")),
    CL("boolean_empty", (I, "ASCII_Boolean"), (b"1", b"true"), (b"2", b"")),
    GR("one", I, (2, (I, S)), I),
    GR("only", (3, (I,)), end=b"\n"),
    GR("two", (2, (I,)), (2, (I, I)), by=b";"),
    GR("nested", I, (2, (I, (2, (I, I)))), I, records=1),
    GR("nested_last", (2, ((2, (I,)), I)), records=1, by=b"|"),
    PL("open"), PL("object_length", bound="object_length"),
    PL("record_length", bound="maximum_record_length"),
    PL("crlf", end=b"\r\n"),
    Harness("long", long, FD, "records of 126 to 129 and 253 to 258 characters", SD,
            params=dict(lengths=(*range(126, 130), *range(253, 259)))),
    Harness("longer", long, FD, "records of 32766 to 32768 and 65533 to 65537 characters", SD,
            params=dict(lengths=(*range(32766, 32769), *range(65533, 65538)))),
    SV("one_file", "QQQ", ("name", "none", "id")),
    SV("files", "PQR", ("none", "id", "none")),
    SV("shared", "PQP", ("same", "name", "same")),
]
