"""C03: ISIS2 qubes: core samples, axis order, side/back/bottomplanes."""
from symex.api import Harness

PROPERTY = "C03"
META = dict(
    title="Qube cores hold the file's samples; layouts pdr cannot split are refused",
    statement="Loading a PDS3 QUBE (ISIS2) gives an array of shape (bands, lines, samples), or (lines, samples) for one band, in which every element is the sample decoded with CORE_ITEM_TYPE and CORE_ITEM_BYTES from the file bytes that CORE_ITEMS and AXIS_NAME (fastest axis first) assign to it. SUFFIX_ITEMS and <axis>_SUFFIX_ITEM_BYTES on one axis, including counts of 0, are left out of the core without displacing it (bandplanes of a one-band core may be refused instead). An object with planes on more than one axis, with planes that are not a whole number of core samples wide, or with both planes and LINE_PREFIX_BYTES or LINE_SUFFIX_BYTES, and a several-band image with line prefixes or suffixes that is not line-interleaved, is refused with an error rather than read wrongly, as is a several-band IMAGE without a band storage type.",
    quantifier="all core dimensions, suffix counts and widths, start bytes, for each item type and axis order",
    why="No test loads a qube; a wrong axis or suffix shifts every sample and still gives an array of plausible shape.",
    files=["pdr/loaders/queries.py", "pdr/loaders/image.py", "pdr/datatypes.py"],
    mechanism=[("qube geometry", "pdr/loaders/queries.py:generic_qube_properties"),
               ("planes along an axis", "pdr/loaders/queries.py:extract_axplane_metadata"),
               ("splitting off planes", "pdr/loaders/image.py:extract_axplanes"),
               ("unsupported layouts", "pdr/loaders/queries.py:check_fix_validity")],
    note="Whole read path from label text; core dimensions <= 2^12 (bands 2^9), suffix counts <= 64; file bytes opaque; numpy layout is the strided-view model validated by replay.",
)

HEAD = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {rb}
FILE_RECORDS = 1
^{name} = ("Q{suf}", {start} <BYTES>)
OBJECT = {name}
{body}END_OBJECT = {name}
END
"""
TYPES = [
    ("MSB_INTEGER", 2, ">i2"), ("LSB_INTEGER", 2, "<i2"),
    ("MSB_UNSIGNED_INTEGER", 1, "u1"), ("IEEE_REAL", 4, ">f4"),
    ("PC_REAL", 4, "<f4"), ("SUN_INTEGER", 4, ">i4"),
    ("VAX_REAL", 4, "<f4"), ("LSB_UNSIGNED_INTEGER", 4, "<u4"),
    ("IEEE_REAL", 8, ">f8"), ("VAX_INTEGER", 2, "<i2"),
]
ORDERS = {"bsq": ("SAMPLE", "LINE", "BAND"), "bil": ("SAMPLE", "BAND", "LINE"),
          "bip": ("BAND", "SAMPLE", "LINE")}


def load(path, name):
    import pdr
    data = pdr.read(path)
    data._target_path(name)
    return data.load_from_pointer(name)[name]


def text(sx, name, body, suf, start, vals):
    return sx.text_file("Q.LBL", HEAD.format(
        name=name, rb="{rb}", suf=suf, start="{start}", body=body),
        rb=sx.int("rb", 1, 2**20), start=start, **vals)


def qube(sx, order, types=(0,), fix=None, side="SUFFIX", nbmax=512,
         itembytes=None, suf=".QUB", core=False, listed=False):
    """fix: the axis with planes"""
    t = TYPES[sx.choice("type", types)]
    isz = t[1]
    axes = ORDERS[order]
    n = dict(SAMPLE=sx.int("ns", 1, 2**12), LINE=sx.int("nl", 1, 2**12),
             BAND=sx.int("nb", 1, nbmax))
    start = sx.int("start", 1, 2**40)
    vals = {f"n{a}": n[a] for a in axes}
    body = f"  AXES = 3\n  AXIS_NAME = ({', '.join(axes)})\n"
    inner = ("  CORE_ITEMS = (" + ", ".join(f"{{n{a}}}" for a in axes) + ")\n"
             f"  CORE_ITEM_BYTES = {isz}\n  CORE_ITEM_TYPE = {t[0]}\n")
    body += f"  OBJECT = CORE\n{inner}  END_OBJECT = CORE\n" if core else inner
    pad = dict.fromkeys(axes, 0)
    if fix:
        count = sx.int("planes", 0, 64)
        ib = itembytes or isz
        body += (f"  {side}_ITEMS = (" + ", ".join(
            "{planes}" if a == fix else "0" for a in axes) + ")\n")
        vals["planes"] = count
        for a in axes:
            if a == fix and listed:
                # widths given plane by plane
                count = 3
                vals["planes"] = 3
                body += f"  {a}_{side}_ITEM_BYTES = ({ib}, {ib}, {ib})\n"
            elif a == fix or listed is None:
                body += f"  {a}_{side}_ITEM_BYTES = {ib}\n"
        pad[fix] = count * ib
        if ib % isz:
            sx.assume(count * ib % isz == 0)
    nl, ns, nb = n["LINE"], n["SAMPLE"], n["BAND"]
    size = sx.int("size", 0, 2**62)
    # size in bytes of one step along each axis, fastest first; the planes of
    # an axis follow (or precede) its core items
    step, items, width, elems = {}, {}, isz, 1
    for a in axes:
        step[a], items[a] = width, elems
        width = n[a] * width + pad[a] * elems
        elems = elems * n[a]
    sx.assume(size >= start - 1 + width)
    path = sx.file("Q", size, suf)
    out = sx.run(load, text(sx, "QUBE", body, suf, start, vals), "QUBE")
    if not out.ok:
        if fix == "BAND":
            # refusing backplanes of a one-band core is within the statement
            if (nb == 1) and (count > 0):
                return
        sx.fail(f"unexpected exception {out.excname}")
        return
    img = out.value
    shape = sx.shape(img)
    want = (nb, nl, ns)
    if len(shape) == 2:
        sx.check(nb == 1, "dimensions")
        want = (nl, ns)
    else:
        sx.check(len(shape) == 3 and (nb > 1), "dimensions")
    sx.check(sx.and_(*[a == b for a, b in zip(shape, want)]), "shape")
    first = start - 1
    skip = 0
    if fix and side == "PREFIX":
        skip = pad[fix] * items[fix]

    def pixel(*ix):
        b, l, s = ix if len(ix) == 3 else (0, *ix)
        off = b * step["BAND"] + l * step["LINE"] + s * step["SAMPLE"]
        return sx.decodes(img, ix, path, first + skip + off, t[2],
                          vax=t[0] == "VAX_REAL")
    sx.forall(shape, pixel, "element is not the file's sample")


def refused(sx, kind):
    """layouts pdr does not support"""
    n = {a: sx.int(a.lower(), 1, 2**10) for a in ORDERS["bsq"]}
    start = sx.int("start", 1, 2**30)
    name, vals = "QUBE", {f"n{a}": n[a] for a in n}
    order = sx.choice("order", list(ORDERS))
    axes = ORDERS[order]
    body = (f"  AXES = 3\n  AXIS_NAME = ({', '.join(axes)})\n  CORE_ITEMS = ("
            + ", ".join(f"{{n{a}}}" for a in axes) + ")\n"
            "  CORE_ITEM_BYTES = 2\n  CORE_ITEM_TYPE = MSB_INTEGER\n")
    if kind in ("axes", "fraction", "both"):
        counts = {a: sx.int("p" + a, 0, 9) for a in axes}
        ib = {a: 2 for a in axes}
        if kind == "axes":
            some = [sx.ite(counts[a] > 0, 1, 0) for a in axes]
            sx.assume(some[0] + some[1] + some[2] > 1)
        else:
            a = sx.choice("axis", list(axes))
            for b in axes:
                if b != a:
                    sx.assume(counts[b] == 0)
            sx.assume(counts[a] > 0)
            if kind == "fraction":
                ib[a] = sx.int("width", 1, 9)
                sx.assume(counts[a] * ib[a] % 2 == 1)
            else:
                side = sx.choice("side", ["PREFIX", "SUFFIX"])
                w = sx.int("linefix", 1, 100)
                body += f"  LINE_{side}_BYTES = {{linefix}}\n"
                vals["linefix"] = w * 2
        body += "  SUFFIX_ITEMS = (" + ", ".join(f"{{p{a}}}" for a in axes) + ")\n"
        for a in axes:
            vals["p" + a], vals["w" + a] = counts[a], ib[a]
            body += f"  {a}_SUFFIX_ITEM_BYTES = {{w{a}}}\n"
    elif kind in ("linefix", "noorder"):
        name = "IMAGE"
        sx.assume(n["BAND"] > 1)
        body = ("  LINES = {nLINE}\n  LINE_SAMPLES = {nSAMPLE}\n  BANDS = {nBAND}\n"
                "  SAMPLE_TYPE = MSB_INTEGER\n  SAMPLE_BITS = 16\n")
        if kind == "linefix":
            st = sx.choice("storage", ["BAND_SEQUENTIAL", "SAMPLE_INTERLEAVED"])
            side = sx.choice("side", ["PREFIX", "SUFFIX"])
            body += f"  BAND_STORAGE_TYPE = {st}\n  LINE_{side}_BYTES = {{linefix}}\n"
            vals["linefix"] = 2 * sx.int("linefix", 1, 100)
    else:   # a line prefix that is not a whole number of samples
        name = "IMAGE"
        body = ("  LINES = {nLINE}\n  LINE_SAMPLES = {nSAMPLE}\n"
                "  SAMPLE_TYPE = MSB_INTEGER\n  SAMPLE_BITS = 16\n"
                "  LINE_PREFIX_BYTES = {linefix}\n")
        vals["linefix"] = 2 * sx.int("linefix", 0, 100) + 1
    path = sx.file("Q", sx.int("size", 0, 2**62), ".IMG")
    out = sx.run(load, text(sx, name, body, ".IMG", start, vals), name)
    sx.check(out.exc is not None, "unsupported layout is refused")


F = ["Data.__init__", "read_pvl", "pointer_to_loader", "ReadImage", "softquery",
     "check_if_qube", "generic_qube_properties", "extract_axplane_metadata",
     "extract_linefix_metadata", "check_fix_validity", "get_image_properties",
     "sample_types", "integer_code", "data_start_byte", "read_image",
     "process_single_band_image", "process_multiband_image", "extract_axplanes"]
B = "core lines and samples 1..2^12, bands 1..2^9, up to 64 planes, start byte < 2^40"
S = ["np.fromfile/reshape/moveaxis/slices -> strided-view model",
     "file contents opaque: only which bytes an element is decoded from"]


def H(name, f=qube, **params):
    return Harness(name, f, F, B, S, params=params)


HARNESSES = (
    [H(f"types_{o}", order=o, types=ts) for o, ts in
     (("bsq", range(len(TYPES))), ("bil", (0, 3, 5)), ("bip", (0, 2, 7)))]
    + [H(f"{fix.lower()}planes_{o}", order=o, types=(0,), fix=fix)
       for o in ORDERS for fix in ("SAMPLE", "LINE", "BAND")]
    + [H("wide_bandplanes_bil", order="bil", types=(0,), fix="BAND", itembytes=4),
       H("wide_sampleplanes_bsq", order="bsq", types=(1,), fix="SAMPLE", itembytes=4),
       H("prefix_bandplanes_bsq", order="bsq", types=(0,), fix="BAND", side="PREFIX"),
       H("prefix_sampleplanes_bil", order="bil", types=(2,), fix="SAMPLE", side="PREFIX"),
       H("listed_widths", order="bil", types=(0,), fix="SAMPLE", listed=True),
       H("all_widths", order="bsq", types=(0,), fix="BAND", listed=None),
       H("core_object", order="bip", types=(0,), core=True),
       H("gz", order="bil", types=(3,), suf=".QUB.gz", fix="BAND")]
    + [H(f"refused_{k}", refused, kind=k)
       for k in ("axes", "fraction", "both", "linefix", "noorder", "prefix")]
)
