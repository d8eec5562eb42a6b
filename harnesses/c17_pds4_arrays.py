"""C17: PDS4 arrays."""
import math
import struct

from symex.api import Harness

PROPERTY = "C17"
META = dict(
    title="PDS4 arrays: every element is the labelled file sample; scaling, masking",
    statement="For a PDS4 label, data[name] of an Array of any kind (Array, Array_2D_Image, Array_3D_Spectrum, ...) is an array whose shape is the axes' elements in the order of their sequence_number (in whatever order the label lists them), and whose element (i1, ..., in) is the number of the Element_Array's data_type (any of the signed and unsigned integers, IEEE754 reals and complex numbers, either byte order) stored at offset + k * item size of the File_Area's file, k being the element's index with the last axis fastest; for several arrays in one file or in several File_Areas, each keeps its own offset, type, shape and file, and is called by its local_identifier, else its name (blanks as underscores), else ARRAY_n; those that share one are told apart by _0, _1, ... Where Object_Statistics gives a bit_mask, the other bits are cleared. data.get_scaled(name) holds the element * scaling_factor + value_offset (1 and 0 where absent), not wrapped around or truncated, in every element that is not masked; exactly those elements are masked that equal one of the Special_Constants (valid_minimum and valid_maximum are limits, not constants); it changes neither data[name] nor what a second call returns.",
    quantifier="layout: all offsets to 2^40, all axis lengths to 2^12, all positions, 1 to 4 axes, every fixed-size numeric data type; scaling: all element values of each type tried, all offsets and real factors to +-2^20, integer factors of signed bytes to +-2^20 and some for the other types, all integer constants in the type's range, arrays of 1 or 2 elements",
    why="The tests open no PDS4 array. Which byte an element comes from depends on offset, axes, type and order together, and whether an integer survives scaling on values, factor and offset together.",
    files=["pdr/pdr.py", "pdr/_scaling.py", "pdr/pds4_tools/reader/read_arrays.py",
           "pdr/pds4_tools/reader/array_objects.py", "pdr/pds4_tools/reader/data_types.py",
           "pdr/pds4_tools/reader/core.py", "pdr/pds4_tools/reader/general_objects.py",
           "pdr/pds4_tools/reader/data.py", "pdr/pds4_tools/utils/helpers.py"],
    mechanism=[("listing a label's objects", "pdr/pdr.py:_init_pds4"),
               ("loading", "pdr/pdr.py:_load_pds4"),
               ("finding the structures", "pdr/pds4_tools/reader/core.py:read_structures"),
               ("reading the bytes", "pdr/pds4_tools/reader/read_arrays.py:_read_array_byte_data, new_array"),
               ("data types", "pdr/pds4_tools/reader/data_types.py:pds_to_numpy_type"),
               ("axes", "pdr/pds4_tools/reader/array_objects.py:get_axis_arrays, dimensions"),
               ("scaling and masking", "pdr/_scaling.py:scale_pds4_tools_struct; pdr/pds4_tools/reader/data_types.py:apply_scaling_and_value_offset")],
    note="The XML text is concrete apart from its numbers. Arrays within FITS files go through the FITS loader and are not claimed here. Constants of integer arrays are integers; those of real arrays are the samples' own values, as numbers or as integers. Floating-point arithmetic is exact in the encoding; results are compared to 1e-9 relative.",
)

HEAD = """<?xml version="1.0" encoding="UTF-8"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
<Identification_Area>
<logical_identifier>urn:nasa:pds:test</logical_identifier>
</Identification_Area>
{areas}</Product_Observational>
"""
AREA = """<File_Area_Observational>
<File><file_name>{file}</file_name></File>
{body}</File_Area_Observational>
"""
TYPES = [
    ("SignedMSB2", ">i2"), ("UnsignedMSB2", ">u2"), ("SignedMSB4", ">i4"),
    ("UnsignedMSB4", ">u4"), ("SignedMSB8", ">i8"), ("UnsignedMSB8", ">u8"),
    ("SignedLSB2", "<i2"), ("UnsignedLSB2", "<u2"), ("SignedLSB4", "<i4"),
    ("UnsignedLSB4", "<u4"), ("SignedLSB8", "<i8"), ("UnsignedLSB8", "<u8"),
    ("SignedByte", "i1"), ("UnsignedByte", "u1"),
    ("IEEE754MSBSingle", ">f4"), ("IEEE754MSBDouble", ">f8"),
    ("IEEE754LSBSingle", "<f4"), ("IEEE754LSBDouble", "<f8"),
    ("ComplexMSB8", ">c8"), ("ComplexMSB16", ">c16"),
    ("ComplexLSB8", "<c8"), ("ComplexLSB16", "<c16"),
]
NAMES = dict((b, a) for a, b in TYPES)


def load(path, *names):
    import pdr
    data = pdr.read(path, debug=True)
    return [data[n] for n in names]


def axis(name, n, seq):
    return f"""<Axis_Array>
<axis_name>{name}</axis_name>
<elements>{n}</elements>
<sequence_number>{seq}</sequence_number>
</Axis_Array>
"""


def array(tag, ident, offset, dtype, axes, extra="", element=""):
    return f"""<{tag}>
{ident}<offset unit="byte">{offset}</offset>
<axes>{len(axes)}</axes>
<axis_index_order>Last Index Fastest</axis_index_order>
<Element_Array>
<data_type>{dtype}</data_type>
{element}</Element_Array>
{"".join(axes)}{extra}</{tag}>
"""


def product(areas):
    return HEAD.format(areas="".join(
        AREA.format(file=f, body="".join(b)) for f, b in areas))


IDENT = "<local_identifier>{}</local_identifier>\n"
NAME = "<name>{}</name>\n"


def check_array(sx, arr, path, ns, start, dt):
    isz = int(dt[2:] if dt[0] in "<>" else dt[1:])
    shape = sx.shape(arr)
    sx.check(len(shape) == len(ns), "dimensions")
    sx.check(sx.and_(*[a == b for a, b in zip(shape, ns)]), "shape")

    def pixel(*ix):
        k = 0
        for i, n in zip(ix, ns):
            k = k * n + i
        return sx.decodes(arr, ix, path, start + k * isz, dt)
    sx.forall(shape, pixel, "element is not the file's sample")


def layout(sx, dims, types, tag="Array", order=None):
    dtype, dt = TYPES[sx.choice("type", types)]
    isz = int(dt.lstrip("<>")[1:])
    ns = [sx.int(f"n{i}", 1, 2 ** 12) for i in range(dims)]
    start = sx.int("start", 0, 2 ** 40)
    axes = [axis(f"A{i}", f"{{n{i}}}", i + 1) for i in order or range(dims)]
    body = array(tag, IDENT.format("ARR"), "{start}", dtype, axes)
    size = sx.int("size", 0, 2 ** 62)
    sx.assume(size >= start + isz * math.prod(ns))
    path = sx.file("Q", size, ".DAT")
    label = sx.text_file("A.xml", product([("Q.DAT", [body])]), start=start,
                         **{f"n{i}": n for i, n in enumerate(ns)})
    out = sx.run(load, label, "ARR")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    check_array(sx, out.value[0], path, ns, start, dt)


def several(sx, files, idents):
    """three arrays, in one or two files"""
    dts = [">i2", "<f4", "u1"]
    dims = [(sx.int("a0", 1, 2 ** 12), sx.int("a1", 1, 2 ** 12)),
           (sx.int("b0", 1, 2 ** 12),), (sx.int("c0", 1, 2 ** 12), sx.int("c1", 1, 2 ** 12))]
    starts = [sx.int(f"s{i}", 0, 2 ** 30) for i in range(3)]
    values, bodies, keys = {}, [], []
    for i in range(3):
        axes = []
        for j, n in enumerate(dims[i]):
            values["abc"[i] + str(j)] = n
            axes.append(axis("X", "{%s%d}" % ("abc"[i], j), j + 1))
        values[f"s{i}"] = starts[i]
        ident = {"id": IDENT.format(f"obj {i}") + NAME.format("other"),
                 "name": NAME.format(f"obj {i}"), "none": "",
                 "same": NAME.format("ob j")}[idents[i]]
        keys.append({"none": f"ARRAY_{i}", "same": f"ob_j_{idents[:i].count('same')}"}.get(
            idents[i], f"obj_{i}"))
        bodies.append(array(["Array_2D_Image", "Array", "Array_2D"][i], ident,
                            f"{{s{i}}}", NAMES[dts[i]], axes))
    size = sx.int("size", 0, 2 ** 62)
    for s, d, dt in zip(starts, dims, dts):
        sx.assume(size >= s + int(dt[-1]) * math.prod(d))
    paths = [sx.file(f, size, ".DAT") for f in sorted(set(files))]
    paths = dict(zip(sorted(set(files)), paths))
    areas = []
    for f, b in zip(files, bodies):
        if areas and areas[-1][0] == f + ".DAT":
            areas[-1][1].append(b)
        else:
            areas.append((f + ".DAT", [b]))
    label = sx.text_file("A.xml", product(areas), **values)
    out = sx.run(load, label, *keys)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    for arr, f, d, s, dt in zip(out.value, files, dims, starts, dts):
        check_array(sx, arr, paths[f], d, s, dt)


# ------------------------------------------------------------------ scaling
def limits(dt):
    n = 8 * int(dt[-1])
    return (0, 2**n - 1) if dt[-2] == "u" else (-2**(n - 1), 2**(n - 1) - 1)


def number(sx, name, kind):
    if kind is None or isinstance(kind, (int, float)):
        return kind
    if isinstance(kind, tuple):
        return sx.choice(name, kind)
    if kind == "int":
        return sx.int(name, -2**20, 2**20)
    return sx.int(name, -2**20, 2**20) / 1024


def get(label):
    import pdr
    data = pdr.read(label, debug=True)
    first = data.get_scaled("ARR")
    second = data.get_scaled("ARR")
    return first, second, data["ARR"]


def stored(sx, name, dt, special=()):
    if dt[-2] in "iu":
        return sx.int(name, *limits(dt))
    if special:
        k = sx.choice(name + "kind", [None, *special])
        if k is not None:
            return k
    return sx.int(name, -2**23, 2**23) / 64


def scaled(sx, dt, sf=None, off=None, consts=(), special=(), n=2, mask=None, limits_=None):
    sx.const_hash()
    s, o = number(sx, "sf", sf), number(sx, "off", off)
    vals, element, extra = {}, "", ""
    if s is not None:
        element += "<scaling_factor>{sf}</scaling_factor>\n"
        vals["sf"] = s
    if o is not None:
        element += "<value_offset>{off}</value_offset>\n"
        vals["off"] = o
    if mask is not None:
        extra += f"<Object_Statistics><bit_mask>{mask}</bit_mask></Object_Statistics>\n"
    specials, inner = [], ""
    for i, (name, c) in enumerate(consts):
        if c == "any":
            c = sx.int(f"const{i}", *limits(dt))
        inner += f"<{name}>{{const{i}}}</{name}>\n"
        vals[f"const{i}"] = c
        if not name.startswith("valid_"):
            specials.append(c)
    if inner:
        extra += f"<Special_Constants>\n{inner}</Special_Constants>\n"
    px = [stored(sx, f"p{i}", dt, special) for i in range(n)]
    sx.value_file("F", [(dt, p) for p in px], ".DAT")
    body = array("Array_1D" if n == 1 else "Array_2D_Image", IDENT.format("ARR"), 0,
                 NAMES[dt], [axis("L", 1, 1), axis("S", n, 2)], extra, element)
    label = sx.text_file("F.xml", product([("F.DAT", [body])]), **vals)
    out = sx.run(get, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    first, second, raw = out.value
    for arr in out.value:
        sx.check(sx.shape(arr) == (1, n), "shape")
    rel = 1e-9
    for i, p in enumerate(px):
        bad = sx.or_(*[same(p, c, dt) for c in specials])
        v = p
        if mask is not None and sx.and_(sx.not_(bad)):
            bits = int(mask, 2)
            if dt[-2] == "i" and bits >= 2 ** (8 * int(dt[-1]) - 1):
                bits -= 2 ** (8 * int(dt[-1]))
            v = p & bits
            bad = sx.or_(*[same(v, c, dt) for c in specials])
        sx.check(sx.elem(raw, 0, i) == v, "stored value")
        for arr, which in ((first, "scaled value"), (second, "scaled value of a second call")):
            sx.check(sx.iff(sx.masked(arr, 0, i), bad), "masked elements")
            if sx.and_(sx.not_(bad)):
                f, a = 1 if s is None else s, 0 if o is None else o
                want, got = v * f + a, sx.elem(arr, 0, i)
                mag = abs(v * f) + abs(a)
                sx.check(got == want if dt[-2] in "iu" and sx.is_int(want) else
                         sx.and_(got - want <= mag * rel, want - got <= mag * rel), which)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def same(p, c, dt):
    return p == (f32(c) if dt[-2:] == "f4" and isinstance(c, float) else c)


F = ["Data._init_pds4", "Data._load_pds4", "pds4_read", "read_structures", "Label.from_file",
     "Meta_ArrayStructure.from_label", "read_array", "_read_array_byte_data",
     "data_type_convert_array", "pds_to_numpy_type", "new_array", "get_axis_arrays",
     "xml_to_dict"]
SF = F + ["Data.get_scaled", "scale_pds4_tools_struct", "apply_scaling_and_value_offset",
          "adjust_array_data_type", "get_scaled_numpy_type", "mask_special_constants",
          "get_min_integer_numpy_type"]
B = "offset < 2^40, each axis <= 2^12, 1 to 4 axes"
BS = "1 or 2 elements of any value; |offsets|, |real factors| <= 2^20 (reals: multiples of 1/1024)"
S = ["np.fromfile/np.frombuffer: strided views of file bytes; the XML parser runs on concrete text with tokens for the numbers"]
SS = ["numpy arrays modelled as arrays of solver terms with numpy's integer wrap-around and type promotion"]


def L(name, dims, types=None, **params):
    return Harness(name, layout, F, B, S, params=dict(
        dims=dims, types=types or [0], **params))


def SC(name, dt, **params):
    return Harness(name, scaled, SF, BS, SS, params=dict(dt=dt, **params))


ALL = list(range(len(TYPES)))
HARNESSES = [
    L("types_1", 1, ALL),
    L("types_2", 2, ALL, tag="Array_2D_Image"),
    L("three", 3, [0, 16], tag="Array_3D_Spectrum"),
    L("three_shuffled", 3, [1], tag="Array_3D_Image", order=(2, 0, 1)),
    L("two_reversed", 2, [13], tag="Array_2D_Map", order=(1, 0)),
    L("four", 4, [8], tag="Array", order=(0, 2, 1, 3)),
    Harness("several_one_file", several, F, B, S, params=dict(
        files="QQQ", idents=("id", "name", "none"))),
    Harness("several_files", several, F, B, S, params=dict(
        files="PQR", idents=("none", "id", "none"))),
    Harness("several_shared", several, F, B, S, params=dict(
        files="QPQ", idents=("name", "none", "id"))),
    Harness("several_same_name", several, F, B, S, params=dict(
        files="QQQ", idents=("same", "id", "same"))),
    Harness("several_all_same", several, F, B, S, params=dict(
        files="PPQ", idents=("same", "same", "same"))),
    SC("plain", ">i2"),
    SC("u1_int", "u1", sf=(-300, -2, 5, 300), off="int", n=1),
    SC("u1_two", "u1", sf=-3, off="int"),
    SC("u1_offset", "u1", off="int"),
    SC("i1_factor", "i1", sf="int", n=1),
    SC("i2_int", ">i2", sf=-299, off=70000, consts=(("missing_constant", "any"),)),
    SC("i2_offset", "<i2", off="int", consts=(("missing_constant", "any"),), n=1),
    SC("u2_int", "<u2", sf=3, off="int", n=1, consts=(
        ("valid_minimum", 5), ("saturated_constant", "any"))),
    SC("i4_int", "<i4", sf=65535, off="int", n=1),
    SC("u4_int", ">u4", sf=-2, off="int", n=1),
    SC("i2_real", ">i2", sf="real", off=None, consts=(("missing_constant", "any"),)),
    SC("u1_mixed", "u1", sf="int", off="real"),
    SC("u2_consts", ">u2", consts=(
        ("missing_constant", "any"), ("error_constant", "any"), ("valid_maximum", 65535))),
    SC("f4", ">f4", sf="real", off="real"),
    SC("f4_int", "<f4", sf="int", off="int"),
    SC("f4_consts", "<f4", off="real", consts=(
        ("missing_constant", -1.1e31), ("invalid_constant", -2.2e30)),
       special=(f32(-1.1e31), f32(-2.2e30))),
    SC("f8", "<f8", sf="real", off="real"),
    SC("f8_consts", ">f8", consts=(("missing_constant", -9.9e9), ("unknown_constant", 7)),
       special=(-9.9e9, 7.0)),
    SC("mask_u1", "u1", mask="00111100", off="int", n=1),
    SC("mask_i2", ">i2", mask="1111000011110000", consts=(("missing_constant", "any"),)),
]
