"""C26: tables that images' prefixes hold, and histograms."""
from harnesses.c05_binary_tables import Body, TYPES, gap, plain, items, container
from symex.api import Harness

PROPERTY = "C26"
META = dict(
    title="Line prefix tables hold the bytes in front of the image's lines",
    statement="If the definition of a PDS3 image names the format of its line prefixes "
    "(^LINE_PREFIX_STRUCTURE or ^STRUCTURE), the product has a table of them: the one for which "
    "the label has a pointer (X_LINE_PREFIX_TABLE, without a definition) to exactly the file and "
    "byte where the image is, whatever the image is called, or else "
    "NAME_LINE_PREFIX_TABLE, NAME being the image's; a pointer to anywhere else is not taken for "
    "it, and each of several images has its own. It is a DataFrame with a row per line and a "
    "column per field of the format file (which holds the columns, or a TABLE of them), in which "
    "every cell is decoded with the field's type from the bytes at: the image's "
    "start + line * (LINE_PREFIX_BYTES + LINE_SAMPLES * bytes per sample + LINE_SUFFIX_BYTES) + "
    "the field's offset, in the image's file (compressed or not). Files that are missing keep "
    "the product from being opened no more than those of other objects. A binary HISTOGRAM "
    "(of any name with that word) is a DataFrame of one row and ITEMS columns, named NAME_0, "
    "NAME_1, ... (NAME for one), that hold the items of DATA_TYPE and ITEM_BYTES which follow "
    "each other from where the pointer says.",
    quantifier="for all line and sample counts, prefix and suffix lengths, gaps between fields, "
    "record lengths and positions of images, pointers and histograms, for each layout in the "
    "list of harnesses",
    why="these tables have no definition of their own: their file, their start and the length "
    "of their rows are worked out from another object's, and a mistake in any of it (a suffix "
    "forgotten, the wrong file, another image's start) gives a table of plausible numbers; no "
    "test has one",
    files=["pdr/pdr.py", "pdr/loaders/queries.py"],
    mechanism=[("finding prefix tables", "pdr/pdr.py:_associate_prefix_tables"),
               ("whose place is it", "pdr/loaders/queries.py:standalone_start_byte"),
               ("layout", "pdr/loaders/queries.py:_fix_up_line_prefix_table_block"),
               ("file", "pdr/pdr.py:_object_to_filename"),
               ("histograms", "pdr/loaders/queries.py:get_histogram_fields")],
    note="Format files of 1-4 fields (also ITEMS and CONTAINERs), samples of 1, 2 and 4 bytes, "
    "detached labels, one-band images. NOT claimed: line prefixes of several-band images, suffix "
    "tables, several structures in one image, histograms with OFFSET, SCALING_FACTOR or of text.",
)

HEAD = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {{rb}}
FILE_RECORDS = 1
{pointers}
{objects}
END
"""

IMAGE = """OBJECT = {name}
  LINES = {lines}
  LINE_SAMPLES = {samples}
  SAMPLE_TYPE = {type_}
  SAMPLE_BITS = {bits}
  LINE_PREFIX_BYTES = {prefix}
{more}  ^{structure} = "{fmt}.FMT"
END_OBJECT = {name}
"""


def image(sx, b, name, template, bits=8, form="columns", suffix=False,
          structure="LINE_PREFIX_STRUCTURE", more="", type_="MSB_INTEGER", fmt=None, **kw):
    """an image and the format file of its prefix -> label text, cells of the
    prefix, bytes from line to line, lines"""
    f = Body(sx)
    f.vals = b.vals      # numbers are named throughout the product
    cols, end, ncol = template(sx, f, **kw)
    lines, samples = sx.int(f"lines_{fmt or name}", 1, 2**12), sx.int(f"samples_{fmt or name}", 1, 2**12)
    prefix = end + (gap(sx, f"pad_{fmt or name}") if form != "exact" else 0)
    text = f.text
    if form == "table":
        text = (f"OBJECT = LINE_PREFIX_TABLE\n  INTERCHANGE_FORMAT = BINARY\n"
                f"  ROWS = {b.num(lines)}\n  COLUMNS = {ncol}\n"
                f"  ROW_BYTES = {b.num(prefix)}\n{text}END_OBJECT = LINE_PREFIX_TABLE\n")
    after = 0
    if suffix:
        after = gap(sx, f"suffix_{fmt or name}")
        more += f"  LINE_SUFFIX_BYTES = {b.num(after)}\n"
    width = samples * (bits // 8)
    if form == "suffix_in_table":
        text = (f"OBJECT = TABLE\n  ROW_BYTES = {b.num(prefix)}\n  ROW_SUFFIX_BYTES = "
                f"{b.num(width + after)}\n  ROWS = {b.num(lines)}\n{text}END_OBJECT = TABLE\n")
    sx.text_file((fmt or name) + ".FMT", text + "END\n", **b.vals)
    label = IMAGE.format(
        name=name, lines=b.num(lines), samples=b.num(samples), type_=type_, bits=bits,
        prefix=b.num(prefix), more=more, structure=structure, fmt=fmt or name)
    return label, cols, prefix + width + after, lines


def keys(path):
    import pdr
    return list(pdr.read(path).keys())


def get(path, name):
    import pdr
    return pdr.read(path)[name]


def verify(sx, label, name, path, start, cols, stride, lines):
    out = sx.run(get, label, name)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    df = out.value
    if not hasattr(df, "columns"):
        sx.fail("no table")
        return
    sx.check(list(df.columns) == [c[0] for c in cols], "column names")
    sx.check(sx.shape(df)[0] == lines, "number of rows")
    for col, off, dt in cols:
        sx.forall((lines,), lambda r: sx.cell(
            df, r, col, path, start + r * stride + off, dt),
            "cell is not the prefix's field")


def place(sx, b, rb, k, how):
    if how == "byte":
        at = sx.int(f"at{k}", 1, 2**32)
        return f'("F{k}.DAT", {b.num(at)} <BYTES>)', at - 1
    if how == "record":
        at = sx.int(f"at{k}", 1, 2**20)
        return f'("F{k}.DAT", {b.num(at)})', (at - 1) * rb
    return f'"F{k}.DAT"', 0


def one(sx, template, name="IMAGE", how="byte", suf=".DAT", pointer=None, **kw):
    """one image; pointer: what the label calls the prefix table, if it does"""
    sx.const_hash()
    b = Body(sx)
    rb = sx.int("rb", 1, 2**16)
    text, cols, stride, lines = image(sx, b, name, template, **kw)
    at, start = place(sx, b, rb, 0, how)
    at = at.replace(".DAT", suf)
    size = sx.int("size", 0, 2**62)
    sx.assume(size >= start + lines * stride)
    path = sx.file("F0", size, suf)
    pointers = f"^{name} = {at}\n" + (f"^{pointer} = {at}\n" if pointer else "")
    label = sx.text_file("T.LBL", HEAD.format(pointers=pointers, objects=text), rb=rb, **b.vals)
    table = pointer or name + "_LINE_PREFIX_TABLE"
    out = sx.run(keys, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(out.value == ["LABEL", name, table], "keys")
    verify(sx, label, table, path, start, cols, stride, lines)


def elsewhere(sx, name="IMAGE", how="byte"):
    """a pointer for a prefix table, to the image or to somewhere else"""
    sx.const_hash()
    b = Body(sx)
    rb = sx.int("rb", 1, 2**16)
    text, cols, stride, lines = image(sx, b, name, plain, types=(1,), form="table")
    at, start = place(sx, b, rb, 0, how)
    if how == "byte":
        there = sx.int("there", 1, 2**32)
        other = f'("F0.DAT", {b.num(there)} <BYTES>)'
        same = there - 1 == start
    else:
        there = sx.int("there", 1, 2**20)
        other = f'("F0.DAT", {b.num(there)})'
        same = (there - 1) * rb == start
    size = sx.int("size", 0, 2**62)
    sx.assume(size >= start + lines * stride)
    path = sx.file("F0", size, ".DAT")
    label = sx.text_file("T.LBL", HEAD.format(
        pointers=f"^{name} = {at}\n^LINE_PREFIX_TABLE = {other}\n", objects=text), rb=rb, **b.vals)
    out = sx.run(keys, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    want = ["LABEL", name, "LINE_PREFIX_TABLE"]
    if not bool(same):
        want.append(name + "_LINE_PREFIX_TABLE")
    sx.check(out.value == want, "keys")
    verify(sx, label, want[-1], path, start, cols, stride, lines)


def named(sx, f, k):
    pos = gap(sx, f"g{k}")
    f.text += f.column(f"C{k}", TYPES[k], pos + 1)
    return [(f"C{k}", pos, TYPES[k][2])], pos + TYPES[k][1], 1


def two_images(sx, names, pointer=None, ask=0, one_file=False):
    """two images, each with its prefix; the pointer is the second one's"""
    sx.const_hash()
    b = Body(sx)
    rb = sx.int("rb", 1, 2**16)
    size = sx.int("size", 0, 2**62)
    texts, pointers, tables = "", "", []
    for k, name in enumerate(names):
        text, cols, stride, lines = image(
            sx, b, name, lambda sx, f: named(sx, f, k), bits=(16, 8)[k], suffix=k == 1,
            form=("table", "columns")[k], fmt=f"{name}{k}")
        at, start = place(sx, b, rb, k, "record")
        if one_file:
            at = at.replace("F1", "F0")
        sx.assume(size >= start + lines * stride)
        path = sx.file(f"F{k}", size, ".DAT") if k == 0 or not one_file else tables[0][0]
        texts += text
        pointers += f"^{name} = {at}\n"
        tables.append((path, start, cols, stride, lines))
    if one_file:
        sx.assume(tables[0][1] != tables[1][1])
    if names[0] == names[1]:
        names = [f"{n}_{k}" for k, n in enumerate(names)]
    want = [n + "_LINE_PREFIX_TABLE" for n in names]
    if pointer:
        pointers += f"^{pointer} = {at}\n"
        want[1] = pointer
    label = sx.text_file("T.LBL", HEAD.format(pointers=pointers, objects=texts), rb=rb, **b.vals)
    out = sx.run(keys, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(sorted(out.value) == sorted(["LABEL", *names, *want]), "keys")
    verify(sx, label, want[ask], *tables[ask])


def missing(sx, here=False):
    """files that are not there (only the pointer's with here)"""
    sx.const_hash()
    b = Body(sx)
    rb = sx.int("rb", 1, 2**16)
    text, cols, stride, lines = image(sx, b, "IMAGE", plain, types=(1,), form="table")
    at, start = place(sx, b, rb, 0, "record")
    there = sx.int("there", 1, 2**20)
    if here:
        size = sx.int("size", 0, 2**62)
        sx.assume(size >= start + lines * stride)
        path = sx.file("F0", size, ".DAT")
    label = sx.text_file("T.LBL", HEAD.format(
        pointers=f'^IMAGE = {at}\n^LINE_PREFIX_TABLE = ("F1.DAT", {b.num(there)})\n',
        objects=text), rb=rb, **b.vals)
    out = sx.run(keys, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    table = "IMAGE_LINE_PREFIX_TABLE"
    sx.check([k for k in out.value if k != table] == ["LABEL", "IMAGE", "LINE_PREFIX_TABLE"],
             "keys")
    if here:
        sx.check(out.value[-1] == table, "keys")
        verify(sx, label, table, path, start, cols, stride, lines)


HISTOGRAM = """OBJECT = {name}
  ITEMS = {n}
  DATA_TYPE = {type_}
  ITEM_BYTES = {width}
{more}END_OBJECT = {name}
"""


def histogram(sx, n, ti, name="IMAGE_HISTOGRAM", how="byte", bytes_=False, suf=".DAT",
              more=""):
    sx.const_hash()
    b = Body(sx)
    rb = sx.int("rb", 1, 2**16)
    t = TYPES[ti]
    at, start = place(sx, b, rb, 0, how)
    at = at.replace(".DAT", suf)
    if bytes_:
        more += f"  BYTES = {n * t[1]}\n"
    size = sx.int("size", 0, 2**62)
    sx.assume(size >= start + n * t[1])
    path = sx.file("F0", size, suf)
    label = sx.text_file("T.LBL", HEAD.format(
        pointers=f"^{name} = {at}\n", objects=HISTOGRAM.format(
            name=name, n=n, type_=t[0], width=t[1], more=more)), rb=rb, **b.vals)
    cols = [(f"{name}_{k}" if n > 1 else name, k * t[1], t[2]) for k in range(n)]
    verify(sx, label, name, path, start, cols, 0, 1)


F = ["Data._find_objects", "Data._associate_prefix_tables", "standalone_start_byte",
     "_fix_up_line_prefix_table_block", "inject_format_files", "Data._object_to_filename",
     "get_block", "get_target", "get_histogram_fields", "read_table"]
B = "gaps, pads and suffixes 0..2^12 bytes, lines and samples 1..2^12, start byte < 2^36"
S = ["np.fromfile and structured dtypes -> strided-view model"]


def H(title, fn, **params):
    return Harness(title, fn, F, B, S, params=params)


HARNESSES = [
    H("columns", one, template=plain, types=(0, 1)),
    H("exact", one, template=plain, types=(1, 5), form="exact", how="record"),
    H("suffix", one, template=plain, types=(7,), suffix=True, bits=16, how="record"),
    H("table", one, template=plain, types=(2, 3), form="table", how="first"),
    H("table_suffix", one, template=plain, types=(5, 4), form="table", suffix=True),
    H("suffix_in_table", one, template=plain, types=(0,), form="suffix_in_table", suffix=True,
      bits=32),
    H("structure", one, template=plain, types=(1,), structure="STRUCTURE", bits=16),
    H("structure_table", one, template=plain, types=(1,), structure="STRUCTURE", form="table",
      suffix=True),
    H("items", one, template=items, n=3, ti=1, spaced=True, before=True, after=2),
    H("items_last", one, template=items, n=2, ti=5, spaced=False, before=True, after=0,
      form="table"),
    H("container", one, template=container, reps=2, fields=(1, 5), form="table", suffix=True),
    H("gz", one, template=plain, types=(0,), suf=".DAT.gz", suffix=True),
    H("name", one, template=plain, types=(0,), name="RAW_IMAGE", how="record"),
    H("pointer", one, template=plain, types=(0,), pointer="LINE_PREFIX_TABLE", how="record"),
    H("pointer_name", one, template=plain, types=(0,), name="RAW_IMAGE",
      pointer="RAW_LINE_PREFIX_TABLE", suffix=True),
    H("elsewhere", elsewhere),
    H("elsewhere_record", elsewhere, how="record", name="RAW_IMAGE"),
    H("missing", missing),
    H("missing_table", missing, here=True),
    H("two_0", two_images, names=("IMAGE", "DARK_IMAGE"), ask=0),
    H("two_1", two_images, names=("IMAGE", "DARK_IMAGE"), ask=1),
    H("two_pointer_0", two_images, names=("IMAGE", "DARK_IMAGE"), ask=0,
      pointer="LINE_PREFIX_TABLE"),
    H("two_pointer_1", two_images, names=("IMAGE", "DARK_IMAGE"), ask=1,
      pointer="LINE_PREFIX_TABLE"),
    H("one_file_0", two_images, names=("IMAGE", "DARK_IMAGE"), ask=0, one_file=True,
      pointer="DARK_LINE_PREFIX_TABLE"),
    H("one_file_1", two_images, names=("DARK_IMAGE", "IMAGE"), ask=1, one_file=True,
      pointer="LINE_PREFIX_TABLE"),
    H("one_file_none", two_images, names=("DARK_IMAGE", "IMAGE"), ask=0, one_file=True),
    H("numbered_0", two_images, names=("IMAGE", "IMAGE"), ask=0, one_file=True),
    H("numbered_1", two_images, names=("IMAGE", "IMAGE"), ask=1),
    H("histogram", histogram, n=4, ti=0),
    H("histogram_real", histogram, n=3, ti=4, name="HISTOGRAM", how="record", bytes_=True),
    H("histogram_one", histogram, n=1, ti=1, how="first"),
    H("histogram_gz", histogram, n=5, ti=6, name="RED_HISTOGRAM", suf=".DAT.gz"),
]
