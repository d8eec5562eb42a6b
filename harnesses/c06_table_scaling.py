"""C06: SCALING_FACTOR and OFFSET of table columns."""
from symex.api import Harness
from harnesses import c05_binary_tables as T

PROPERTY = "C06"
META = dict(
    title="Scaled table columns hold value * SCALING_FACTOR + OFFSET",
    statement="In a binary table, every cell of a column (of integers up to 4 bytes, or IEEE reals) that has SCALING_FACTOR and/or OFFSET is the file's value * SCALING_FACTOR + OFFSET, exactly and without integer wrap-around, whichever of the two keywords the column has, whether or not other columns have them, and whatever rows' padding is; columns with neither keyword hold the file's values unchanged.",
    quantifier="all integer factors and offsets up to +-2^20, all real ones, all stored values, column positions and row counts",
    why="The result depends on stored value, factor and column type together; tests have no scaled column at all.",
    files=["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py"],
    mechanism=[("applying factor and offset", "pdr/loaders/table.py:read_table")],
    note="Rounding of floating-point arithmetic is outside the encoding (reals are exact); replays compare to 1e-9 relative.",
)


def scaled(sx, types, keys, ints, rowpad=True, suf=".DAT"):
    sx.const_hash()
    b = T.Body(sx)
    pos, cols = 0, []
    for i, (ti, key) in enumerate(zip(types, keys)):
        t = T.TYPES[ti]
        pos = pos + T.gap(sx, f"gap{i}")
        more, sf, off = {}, 1, 0
        if "s" in key:
            sf = sx.int(f"sf{i}", -2**20, 2**20) if ints else \
                sx.real(f"sf{i}", -2**20, 2**20)
            sx.assume(sf != 0)
            more["SCALING_FACTOR"] = sf
        if "o" in key:
            off = sx.int(f"off{i}", -2**20, 2**20) if ints else \
                sx.real(f"off{i}", -2**20, 2**20)
            more["OFFSET"] = off
        b.text += b.column(f"C{i}", t, pos + 1, **more)
        cols.append((f"C{i}", pos, t[2], key, sf, off))
        pos = pos + t[1]
    row = pos + (T.gap(sx, "rowpad") if rowpad else 0)
    rows, start = sx.int("rows", 1, 2**20), sx.int("start", 1, 2**40)
    size = sx.int("size", 0, 2**62)
    sx.assume(size >= start - 1 + rows * row)
    path = sx.file("T", size, suf)
    label = sx.text_file("T.LBL", T.HEAD.format(
        rb="{rb}", start="{start}", rows="{rows}", suf=suf, ncol=len(cols),
        extra=f"  ROW_BYTES = {b.num(row)}\n", body=b.text,
    ), rb=sx.int("rb", 1, 2**20), start=start, rows=rows, **b.vals)
    out = sx.run(T.load, label, "TABLE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value
    sx.check(list(df.columns) == [c[0] for c in cols], "column names")
    sx.check(sx.shape(df)[0] == rows, "number of rows")
    for name, o, dt, key, sf, off in cols:
        where = lambda r: start - 1 + r * row + o
        if key:
            sx.forall((rows,), lambda r: sx.scaled_cell(
                df, r, name, path, where(r), dt, sf, off), "scaled value")
        else:
            sx.forall((rows,), lambda r: sx.cell(
                df, r, name, path, where(r), dt), "unscaled value")


F = ["ReadTable", "read_table", "parse_table_structure", "read_format_block",
     "_interpret_as_binary"]
B = T.B + "; factors and offsets -2^20..2^20"


def H(name, **params):
    return Harness(name, scaled, F, B, T.S, params=params)


HARNESSES = [
    H("int_both", types=(5, 0), keys=("so", "s"), ints=True),
    H("int_all_columns", types=(5, 1), keys=("s", "s"), ints=True, rowpad=False),
    H("int_offset_only", types=(5,), keys=("o",), ints=True, rowpad=False),
    H("int_offset_16", types=(11, 7), keys=("o", "o"), ints=True),
    H("real_both", types=(1, 2), keys=("so", "so"), ints=False),
    H("real_scale_only", types=(0, 5), keys=("s", ""), ints=False),
    H("real_offset_only", types=(7, 11), keys=("", "o"), ints=False),
    H("mixed", types=(5, 1, 0), keys=("o", "", "s"), ints=False, suf=".DAT.gz"),
]
