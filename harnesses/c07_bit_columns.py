"""C07: BIT_COLUMNs of binary tables."""
from symex.api import Harness
from harnesses.c08_sample_types import load

PROPERTY = "C07"
META = dict(
    title="BIT_COLUMNs come out as exactly the bits the label assigns them",
    statement="In a binary TABLE, the value of a COLUMN of bit strings (MSB_BIT_STRING or LSB_BIT_STRING, of any width in bytes, or an integer type whose BIT_COLUMNs have a BIT_DATA_TYPE of that byte order) is, in each row, a list with one string of 0s and 1s per BIT_COLUMN, in label order: bits START_BIT to START_BIT + BITS - 1, counted from 1 at the most significant bit of the first byte (MSB) or of the last byte (LSB, whose bytes are stored in reverse order); a BIT_COLUMN with ITEMS gives one string per item, of ITEM_BITS bits, each ITEM_OFFSET bits (by default ITEM_BITS) after the last. Leading zeros are kept, and other columns are not disturbed. The same holds for each item of a COLUMN with ITEMS.",
    quantifier="all values of the bits, all START_BIT and BITS (or ITEMS, ITEM_BITS and ITEM_OFFSET) in stated ranges that fit the column",
    why="The one test has one MSB column of two bytes, read from random bits.",
    files=["pdr/bit_handling.py", "pdr/loaders/handlers.py", "pdr/loaders/table.py"],
    mechanism=[("bit positions", "pdr/bit_handling.py:get_bit_start_and_size"),
               ("bytes to bits", "pdr/bit_handling.py:convert_byte_column_to_bits"),
               ("slicing", "pdr/bit_handling.py:split_bits"),
               ("type inference", "pdr/bit_handling.py:set_bit_string_data_type")],
    note="One or two rows, columns of up to 12 bytes, one or two BIT_COLUMNs.",
)

TABLE = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^TABLE = "F.DAT"
OBJECT = TABLE
  INTERCHANGE_FORMAT = BINARY
  ROWS = {rows}
  COLUMNS = {ncols}
  ROW_BYTES = {row}
{pre}  OBJECT = COLUMN
    NAME = FLAGS
    DATA_TYPE = {type}
    START_BYTE = {at}
    BYTES = {total}
{items}{bits}  END_OBJECT = COLUMN
{post}END_OBJECT = TABLE
END
"""
SIDE = """  OBJECT = COLUMN
    NAME = {name}
    DATA_TYPE = MSB_UNSIGNED_INTEGER
    START_BYTE = {at}
    BYTES = 1
  END_OBJECT = COLUMN
"""
BIT = """    OBJECT = BIT_COLUMN
      NAME = B{n}
      BIT_DATA_TYPE = {bdt}
      START_BIT = {s}
      BITS = {k}
    END_OBJECT = BIT_COLUMN
"""
ITEM = """    OBJECT = BIT_COLUMN
      NAME = B{n}
      BIT_DATA_TYPE = {bdt}
      START_BIT = {s}
      ITEMS = {i}
      ITEM_BITS = {k}
{off}    END_OBJECT = BIT_COLUMN
"""


def data(sx, tag, nbytes):
    """(bytes in file order as values, bits in file order)"""
    bits = [sx.int(f"{tag}x{k}", 0, 1) for k in range(8 * nbytes)]
    return [sum(b * 2 ** (7 - i) for i, b in enumerate(bits[8 * k:8 * k + 8]))
            for k in range(nbytes)], bits


def ordered(bits, lsb):
    """bits in label order"""
    if not lsb:
        return bits
    n = len(bits) // 8
    return [b for k in reversed(range(n)) for b in bits[8 * k:8 * k + 8]]


def same(sx, got, bits):
    if not sx.is_str(got) or len(got) != len(bits):
        return False
    return sx.and_(*[
        sx.and_(sx.or_(got[i] == "0", got[i] == "1"),
                sx.iff(got[i] == "1", b == 1)) for i, b in enumerate(bits)])


def make(sx, width, dtype, bdt, specs, rows, reps, side):
    """specs: [(start, bits) or (start, items, item_bits, offset or None)],
    numbers of which may be symbolic"""
    sx.const_hash()
    cells, allbits, sides = [], [], []
    for r in range(rows):
        a, b = sx.int(f"a{r}", 0, 255), sx.int(f"z{r}", 0, 255)
        if side:
            cells.append(("u1", a))
        allbits.append([])
        for i in range(reps):
            bs, bits = data(sx, f"r{r}i{i}", width)
            cells += [("u1", v) for v in bs]
            allbits[-1].append(bits)
        if side:
            cells.append(("u1", b))
        sides.append((a, b))
    sx.value_file("F", cells)
    text, values = "", {}
    for n, s in enumerate(specs):
        names = {f"s{n}": s[0], f"k{n}": s[-1] if len(s) == 2 else s[2]}
        if len(s) == 2:
            text += BIT.format(n=n, bdt=bdt, s=f"{{s{n}}}", k=f"{{k{n}}}")
        else:
            names[f"i{n}"] = s[1]
            off = ""
            if s[3] is not None:
                names[f"o{n}"] = s[3]
                off = f"      ITEM_OFFSET = {{o{n}}}\n"
            text += ITEM.format(n=n, bdt=bdt, s=f"{{s{n}}}", k=f"{{k{n}}}",
                                i=f"{{i{n}}}", off=off)
        values |= names
    total = width * reps
    items = "" if reps == 1 else f"    ITEMS = {reps}\n    ITEM_BYTES = {width}\n"
    label = sx.text_file("F.LBL", TABLE.format(
        rows=rows, ncols=3 if side else 1, row=total + 2 * side, type=dtype,
        at=1 + side, total=total, items=items, bits=text,
        pre=SIDE.format(name="A", at=1) if side else "",
        post=SIDE.format(name="Z", at=total + 2) if side else ""), **values)
    out = sx.run(load, label, "TABLE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None
    df = out.value
    names = ["FLAGS"] if reps == 1 else [f"FLAGS_{i}" for i in range(reps)]
    sx.check(list(df.columns) == (["A"] if side else []) + names
             + (["Z"] if side else []), "column names")
    sx.check(sx.shape(df)[0] == rows, "number of rows")
    if side:
        ca, cz = sx.column(df, "A"), sx.column(df, "Z")
        for r in range(rows):
            sx.check(sx.elem(ca, r) == sides[r][0], "other column is disturbed")
            sx.check(sx.elem(cz, r) == sides[r][1], "other column is disturbed")
    return [[list(sx.objects(df, n))[r] for n in names] for r in range(rows)], allbits


def check(sx, made, lsb, want):
    """want: [(start, length)], concrete once the path has been taken"""
    if made is None:
        return
    got, allbits = made
    for row, bits in zip(got, allbits):
        for cell, b in zip(row, bits):
            sx.check(isinstance(cell, list) and len(cell) == len(want),
                     "one string per bit column")
            b = ordered(b, lsb)
            for g, (s, k) in zip(cell, want):
                sx.check(same(sx, g, b[s - 1:s - 1 + k]), "bits of a bit column")


def fixed(sx, width, lsb, dtype, bdt, rows=2, reps=1, side=1):
    w = 8 * width
    cuts = [(1, 3), (4, w - 5), (w - 1, 2), (1, w), (w // 2, 2)]
    check(sx, make(sx, width, dtype, bdt, cuts, rows, reps, side), lsb, cuts)


def ranges(sx, width, lsb, dtype, bdt):
    w = 8 * width
    s = sx.int("s", 1, w)
    k = sx.int("k", 1, w)
    sx.assume(s + k <= w + 1)
    if width > 2:
        sx.assume(sx.and_((s - 1) % 5 <= 1, k % 4 <= 1))
    made = make(sx, width, dtype, bdt, [(s, k), (2, 5)], 1, 1, 1)
    s, k = sx.concrete(s), sx.concrete(k)
    check(sx, made, lsb, [(s, k), (2, 5)])


def items(sx, width, lsb, dtype, bdt, offset=False):
    w = 8 * width
    s, n, k = sx.int("s", 1, w), sx.int("n", 1, 5), sx.int("k", 1, 6)
    o = sx.int("o", 1, 8) if offset else None
    sx.assume(k % 3 != 2 if width == 2 else sx.and_(k % 3 == 0, n != 3))
    sx.assume(s % 4 <= 1)
    if offset:
        sx.assume(o % 3 == 1)
    step = o if offset else k
    if offset:
        sx.assume(o >= k)
    sx.assume(s + (n - 1) * step + k <= w + 1)
    made = make(sx, width, dtype, bdt, [(w - 3, 4), (s, n, k, o), (1, 2)], 1, 1, 1)
    s, n, k, step = map(sx.concrete, (s, n, k, step))
    check(sx, made, lsb, [(w - 3, 4)] + [(s + j * step, k) for j in range(n)] + [(1, 2)])


F = ["ReadTable", "read_table_structure", "add_bit_column_info",
     "get_bit_start_and_size", "set_bit_string_data_type", "expand_bit_strings",
     "convert_to_full_bit_string", "convert_byte_column_to_bits", "splice_bit_string"]
B = "all values of all bits; all stated positions"
S = ["numpy arrays modelled as arrays of solver terms"]
KINDS = {
    "msb": (False, "MSB_BIT_STRING", "MSB_UNSIGNED_INTEGER"),
    "lsb": (True, "LSB_BIT_STRING", "LSB_UNSIGNED_INTEGER"),
    "msb_int": (False, "MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER"),
    "lsb_int": (True, "LSB_UNSIGNED_INTEGER", "LSB_INTEGER"),
    "pc_int": (True, "PC_INTEGER", "PC_UNSIGNED_INTEGER"),
    "msb_quoted": (False, '"MSB BIT STRING"', '"MSB INTEGER"'),
}


def H(name, fn, kind, **params):
    lsb, dtype, bdt = KINDS[kind]
    return Harness(name, fn, F, B, S, params=dict(lsb=lsb, dtype=dtype, bdt=bdt, **params),
                   enum_cap=300, budget_thorough=700)


HARNESSES = [
    H(f"{k}_{w}", fixed, k, width=w)
    for k in ("msb", "lsb") for w in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 16)
] + [
    H(f"{k}_{w}", fixed, k, width=w)
    for k in ("msb_int", "lsb_int", "pc_int", "msb_quoted") for w in (1, 2, 4)
] + [
    H(f"{k}_alone_{w}", fixed, k, width=w, side=0) for k in ("msb", "lsb") for w in (2, 3)
] + [
    H(f"{k}_column_items_{w}", fixed, k, width=w, reps=2) for k in ("msb", "lsb")
    for w in (2, 3)
] + [
    H(f"{k}_ranges_{w}", ranges, k, width=w) for k in ("msb", "lsb") for w in (1, 2, 3)
] + [
    H(f"{k}_items_{w}", items, k, width=w, **({"offset": True} if o else {}))
    if not o else
    H(f"{k}_item_offset_{w}", items, k, width=w, offset=True)
    for k in ("msb", "lsb") for w in (2, 3) for o in (0, 1)
]
