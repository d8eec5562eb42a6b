"""C01: object start byte from PDS3 pointers."""
from symex.api import Harness

PROPERTY = "C01"
META = dict(
    title="Start byte of an object is exactly what its pointer says",
    statement="For every form of PDS3 pointer (record number, byte quantity, record quantity, file name, file name plus position), the byte at which an object is read is the one the PDS3 pointer rules give: bytes and records are 1-based, record lengths come from the object's own definition before the product's, and a bare file name means the first byte. When the label does not determine the position, or the position would be negative, an error is raised instead of a guess.",
    quantifier="all pointer numbers, record lengths, row counts and file sizes, for every pointer form",
    why="Off-by-one and precedence errors only show for particular combinations of pointer form, record length source and position; tests sample a few products.",
    files=["pdr/loaders/queries.py", "pdr/loaders/_helpers.py"],
    mechanism=[("pointer to start byte", "pdr/loaders/queries.py:data_start_byte"),
               ("quantity pointers", "pdr/loaders/_helpers.py:quantity_start_byte"),
               ("end-of-file fallback", "pdr/loaders/_helpers.py:count_from_bottom_of_file")],
    note="All values within pointer < 2^40, record length < 2^31, file size < 2^50; products with mission-specific offset rules are outside (see C18).",
)


def start_byte(sx):
    from pdr.loaders.queries import data_start_byte
    import pdr.loaders._helpers as H

    n = sx.int("n", 0, 2**40)               # the pointer's number
    form = sx.choice("form", [
        "int", "file_int", "bytes", "file_bytes", "quant", "file_quant",
        "file", "file_only_seq",
    ])
    as_list = sx.bool("as_list")
    fn = "F.DAT"
    if form.endswith("int"):
        target = n
    elif form.endswith("bytes"):
        target = {"value": n, "units": "BYTES"}
    elif form.endswith("quant"):
        target = {"value": n, "units": sx.choice("units", ["RECORDS", "LINES"])}
    else:
        target = fn
    if form.startswith("file_"):
        target = ("F.DAT", target) if form != "file_only_seq" else ("F.DAT",)
        if as_list:
            target = list(target)
    idrec_kind = sx.choice("idrec_kind", ["int", "none", "empty"])
    idrec = {"int": sx.int("idrec", 1, 2**31), "none": None, "empty": ""}[idrec_kind]
    block_kind = sx.choice("block_kind", ["rec", "plain", "rows"])
    rows, row_bytes = sx.int("rows", 0, 2**31), sx.int("row_bytes", 0, 2**20)
    blkrec = sx.int("blkrec", 1, 2**31)
    block = {"NAME": "X"}
    if block_kind == "rec":
        block["RECORD_BYTES"] = blkrec
    elif block_kind == "rows":
        block["ROWS"], block["ROW_BYTES"] = rows, row_bytes
    size = sx.int("size", 0, 2**50)
    real_getsize = H.os.path.getsize
    H.os.path.getsize = lambda p: size
    try:
        out = sx.run(
            data_start_byte,
            identifiers={"RECORD_BYTES": idrec}, block=block, target=target,
            fn=fn,
        )
    finally:
        H.os.path.getsize = real_getsize
    rec = blkrec if block_kind == "rec" else (idrec if idrec_kind == "int" else None)
    zero = 0
    if form in ("file", "file_only_seq"):
        expect = zero
    elif "bytes" in form:
        expect = n - 1
    elif rec is not None:
        expect = rec * sx.max(n - 1, 0)
    elif "quant" in form:
        expect = None
    else:
        # plain record number and nothing says how long a record is
        if n == 1:
            expect = zero
        elif block_kind == "rows":
            expect = sx.max(size - rows * row_bytes, 0)
        else:
            expect = None
    if expect is None:
        sx.check(out.raised(ValueError), "undeterminable start must be ValueError")
        return
    if expect < 0:
        sx.check(out.raised(ValueError), "negative start must be ValueError")
        return
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(out.value == expect, "start byte")
    sx.check(out.value >= 0, "start byte non-negative")


HARNESSES = [
    Harness(
        "start_byte", start_byte,
        ["queries.data_start_byte", "_helpers.quantity_start_byte",
         "_helpers.count_from_bottom_of_file"],
        "pointer number 0..2^40, record length 1..2^31, file size < 2^50; all "
        "pointer forms (n, (file,n), n <BYTES>, n <other>, file)",
        ["os.path.getsize -> arbitrary size"],
    ),
]
