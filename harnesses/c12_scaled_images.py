"""C12: get_scaled."""
import struct

from symex.api import Harness

PROPERTY = "C12"
META = dict(
    title="get_scaled gives value * SCALING_FACTOR + OFFSET and masks special constants",
    statement="Data.get_scaled of a PDS3 image returns an array of the image's shape in which every pixel that is not masked holds the stored value * SCALING_FACTOR + OFFSET from the label (1 and 0 where absent or N/A), never wrapped around or truncated by the image's integer type, whether the numbers are integers or reals, whether inplace is set or not; where the label gives one pair per band, each band gets its own. Exactly those pixels are masked that equal a special constant: one given in the image's label block (MISSING_CONSTANT, NULL_CONSTANT, CORE_NULL...), or one implied by the sample type (16- and 32-bit integers, 4- and 8-byte reals; none for 8-bit samples), or that are not finite.",
    quantifier="all pixel values of each sample type, all integer and real factors and offsets up to +-2^20, all integer constants; images of 2 pixels and of 2 bands of 1 pixel",
    why="Wrap-around, float precision and masking depend on stored value, factor, offset and type together; the tests look up two constants and scale nothing.",
    files=["pdr/_scaling.py", "pdr/pdr.py", "pdr/np_utils.py", "pdr/datatypes.py"],
    mechanism=[("fetching and masking", "pdr/pdr.py:get_scaled"),
               ("looking up constants", "pdr/_scaling.py:find_special_constants"),
               ("masking", "pdr/_scaling.py:mask_specials"),
               ("scaling", "pdr/_scaling.py:scale_array"),
               ("avoiding overflow", "pdr/_scaling.py:overflow_wrap, fit_to_scale")],
    note="Floating-point arithmetic is exact in the encoding (only narrowing to float32 is modelled); results are compared to 1e-5 relative for float32 images, 1e-9 otherwise. Images have 2 pixels: the code treats pixels alike, except for their minimum and maximum, for which 2 suffice.",
)

LABEL = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^IMAGE = "F.IMG"
OBJECT = IMAGE
  LINES = 1
  LINE_SAMPLES = {ns}
  SAMPLE_TYPE = {st}
  SAMPLE_BITS = {bits}
{more}END_OBJECT = IMAGE
END
"""

TYPES = {
    "u1": ("MSB_UNSIGNED_INTEGER", 8), "u2": ("MSB_UNSIGNED_INTEGER", 16),
    "i2": ("LSB_INTEGER", 16), "i4": ("MSB_INTEGER", 32), "i1": ("MSB_INTEGER", 8),
    "u4": ("LSB_UNSIGNED_INTEGER", 32), "f4": ("PC_REAL", 32),
    "f8": ("IEEE_REAL", 64),
}


def f32(h):
    return struct.unpack(">f", bytes.fromhex(h))[0]


IMPLICIT = {
    "u1": (), "i1": (),
    "i2": (-32768, -32767, -32766, -32765, -32764, 32767),
    "u2": (0, 1, 2, 65533, 65534, 65535),
    "i4": (-2147483648, 2147483647),
    "u4": (4294967293, 4294967294, 0xFF7FFFFB, 0xFF7FFFFC, 0xFF7FFFFD,
           0xFF7FFFFE, 0xFF7FFFFF),
    "f4": (f32("FF7FFFFB"), f32("FF7FFFFC"), f32("FF7FFFFD"), f32("FF7FFFFE"),
           f32("FF7FFFFF"), f32("F49DC5AE"), f32("749DC5AE")),
    "f8": (-3.4028226550889044521e38,),
}


def limits(t):
    n = 8 * int(t[1])
    return (0, 2**n - 1) if t[0] == "u" else (-2**(n - 1), 2**(n - 1) - 1)


def dtype(t):
    return ("<" if TYPES[t][0][0] in "LP" else ">") + t if t[1] != "1" else t


def pixel(sx, name, t, special=()):
    """a stored value: any integer, or any of many reals"""
    if t[0] in "ui":
        return sx.int(name, *limits(t))
    if special:
        k = sx.choice(name + "kind", [None, *special])
        if k is not None:
            return k
    return sx.int(name, -2**23, 2**23) / 64


def number(sx, name, kind):
    if kind is None or isinstance(kind, (int, float)):
        return kind
    if kind == "int":
        return sx.int(name, -2**20, 2**20)
    return sx.int(name, -2**20, 2**20) / 1024


def get(label, kw):
    import pdr
    data = pdr.read(label)
    return data.get_scaled("IMAGE", **kw)


def check_pixel(sx, arr, idx, v, t, specials, sf, off):
    """v: the stored value; specials: all values to be masked"""
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        bad = True
    else:
        bad = sx.or_(*[v == c for c in specials])
    sx.check(sx.iff(sx.masked(arr, *idx), bad), "masked pixels")
    if sx.and_(sx.not_(bad)):
        sf, off = 1 if sf is None else sf, 0 if off is None else off
        want = v * sf + off
        mag = abs(v * sf) + abs(off)
        rel = 1e-5 if t == "f4" else 1e-9
        got = sx.elem(arr, *idx)
        sx.check(sx.near(got, want, 0, 0) if t[0] in "ui" and sx.is_int(want)
                 else close(sx, got, want, mag, rel), "scaled value")


def close(sx, got, want, mag, rel):
    if isinstance(got, float) and got - got != 0:
        return False
    return sx.and_(got - want <= mag * rel, want - got <= mag * rel)


def scaled(sx, t, sf=None, off=None, const=None, inplace=False, special=(),
           npix=2, kw=None):
    st, bits = TYPES[t]
    sx.const_hash()
    s, o = number(sx, "sf", sf), number(sx, "off", off)
    vals, more = {}, ""
    if s is not None:
        more += "  SCALING_FACTOR = {sf}\n"
        vals["sf"] = s
    if o is not None:
        more += "  OFFSET = {off}\n"
        vals["off"] = o
    specials = list(IMPLICIT[t])
    if const is not None:
        name, c = const
        c = sx.int("const", *(limits(t) if c == "any" else c)) \
            if not isinstance(c, (int, float)) else c
        more += f"  {name} = {{const}}\n"
        vals["const"] = c
        if not isinstance(c, (float)) or t == "f8":
            specials.append(c)
        else:
            # the constant is stored as the nearest single
            specials.append(struct.unpack("f", struct.pack("f", c))[0])
    pix = [pixel(sx, f"p{i}", t, special) for i in range(npix)]
    sx.value_file("F", [(dtype(t), p) for p in pix], ".IMG")
    label = sx.text_file("F.LBL", LABEL.format(ns=npix, st=st, bits=bits, more=more),
                         **vals)
    out = sx.run(get, label, {**(kw or {}), **({"inplace": True} if inplace else {})})
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    arr = out.value
    sx.check(sx.shape(arr) == (1, npix), "shape")
    for i, p in enumerate(pix):
        check_pixel(sx, arr, (0, i), p, t, specials, s, o)


def bands(sx, t, sf, off, inplace=False):
    st, bits = TYPES[t]
    sx.const_hash()
    ss = [number(sx, f"sf{i}", sf[i] if isinstance(sf, tuple) else sf)
          for i in range(2)]
    oo = [number(sx, f"off{i}", off) for i in range(2)]
    pix = [pixel(sx, f"p{i}", t) for i in range(2)]
    sx.value_file("F", [(dtype(t), p) for p in pix], ".IMG")
    label = sx.text_file("F.LBL", LABEL.format(
        ns=1, st=st, bits=bits,
        more="  BANDS = 2\n  BAND_STORAGE_TYPE = BAND_SEQUENTIAL\n"
             "  SCALING_FACTOR = ({s0}, {s1})\n  OFFSET = ({o0}, {o1})\n"),
        s0=ss[0], s1=ss[1], o0=oo[0], o1=oo[1])
    out = sx.run(get, label, {"inplace": True} if inplace else {})
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    arr = out.value
    sx.check(sx.shape(arr) == (2, 1, 1), "shape")
    for i, p in enumerate(pix):
        check_pixel(sx, arr, (i, 0, 0), p, t, IMPLICIT[t], ss[i], oo[i])


F = ["Data.get_scaled", "Data.find_special_constants", "find_special_constants",
     "mask_specials", "scale_array", "overflow_wrap", "fit_to_scale",
     "_copy_scale", "_inplace_scale", "casting_to_float"]
B = "2 pixels of any value; |factors|, |offsets| <= 2^20 (reals: multiples of 1/1024)"
S = ["numpy arrays modelled as arrays of solver terms with numpy's integer wrap-around and type promotion"]


def H(name, fn=scaled, **params):
    return Harness(name, fn, F, B, S, params=params)


nonfinite = (float("nan"), float("inf"), float("-inf"))
HARNESSES = [
    H("u1_int", t="u1", sf="int", off="int"),
    H("u1_int_inplace", t="u1", sf="int", off="int", inplace=True),
    H("u1_real", t="u1", sf="real", off="real"),
    H("u1_int_then_real", t="u1", sf="int", off="real"),
    H("i2_int", t="i2", sf=-299, off="int", const=("MISSING_CONSTANT", "any")),
    H("i2_real", t="i2", sf="real", off=None, const=("NULL_CONSTANT", "any")),
    H("u2_const", t="u2", const=("CORE_NULL", "any")),
    H("u2_inplace", t="u2", sf=None, off="int", inplace=True),
    H("i4_int", t="i4", sf=65535, off="int"),
    H("i4_int_negative", t="i4", sf=-3, off="int", npix=1, inplace=True),
    H("i4_real", t="i4", sf="real", off="real"),
    H("u4_int", t="u4", sf=3, off="int", inplace=True, npix=1),
    H("i1_int", t="i1", sf="int", off=None),
    H("f4", t="f4", sf="real", off="real", special=IMPLICIT["f4"] + nonfinite, npix=1),
    H("f4_two", t="f4", sf="int", off="int", special=nonfinite[:1] + IMPLICIT["f4"][:1]),
    H("f4_inplace", t="f4", sf="real", off=None, inplace=True),
    H("f4_consts", t="f4", const=("MISSING_CONSTANT", -1.1e31),
      special=(struct.unpack("f", struct.pack("f", -1.1e31))[0], float("nan"))),
    H("f4_int_const", t="f4", const=("MISSING_CONSTANT", (-99999, 99999)), npix=1),
    H("f8", t="f8", sf="real", off="real", special=IMPLICIT["f8"] + nonfinite),
    H("f8_inplace", t="f8", sf="real", off="real", inplace=True,
      const=("UNKNOWN_CONSTANT", -9.9e9), special=(-9.9e9,)),
    H("bands_real", fn=bands, t="i2", sf="real", off="real"),
    H("bands_int", fn=bands, t="u1", sf=(3, -5), off="int"),
    H("bands_inplace", fn=bands, t="f4", sf="real", off="real", inplace=True),
]
