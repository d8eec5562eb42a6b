"""C02: pixels of a PDS3 image are the file's samples, in order."""
from symex.api import Harness

PROPERTY = "C02"
META = dict(
    title="Loaded image pixels are the file's samples, at the labelled positions",
    statement="Loading a PDS3 image described only by standard keywords gives a C-contiguous array of shape (lines, samples), or (bands, lines, samples) when there is more than one band, whose every element is decoded with the labelled sample type from exactly the file bytes that the label's geometry, band storage order, line prefix/suffix bytes and start byte assign to it; line prefixes and suffixes are returned the same way. This also holds when the file is gzip-, bzip2- or zip-compressed. If the file is too short for the labelled geometry, loading fails rather than returning an array.",
    quantifier="all image dimensions, start bytes, prefix/suffix widths and file sizes, for each sample type, band order and compression",
    why="Tests use a handful of small fixed images; a transposed axis, a misplaced band or a wrong byte count agrees with them when dimensions coincide or are 1.",
    files=["pdr/loaders/image.py", "pdr/loaders/queries.py", "pdr/np_utils.py", "pdr/datatypes.py", "pdr/utils.py"],
    mechanism=[("geometry from label", "pdr/loaders/queries.py:generic_image_properties"),
               ("reading and reordering", "pdr/loaders/image.py:process_multiband_image"),
               ("line prefixes", "pdr/loaders/image.py:extract_single_band_linefix"),
               ("reading from plain and compressed files", "pdr/np_utils.py:np_from_buffered_io")],
    note="Whole read path run symbolically from the label text; lines, samples <= 2^14, bands <= 2^10, prefixes/suffixes (single-band) <= 2^12 pixels, start < 2^40; file bytes are opaque; numpy layout operations are a strided-view model validated by replaying every path on real numpy.",
)

LABEL = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {rb}
FILE_RECORDS = 1
^{name} = ("F{suf}", {start} <BYTES>)
OBJECT = {name}
  LINES = {nl}
  LINE_SAMPLES = {ns}
  SAMPLE_TYPE = {stype}
  SAMPLE_BITS = {bits}
{extra}END_OBJECT = {name}
END
"""

# (SAMPLE_TYPE, SAMPLE_BITS, numpy dtype that PDS3 defines for it)
TYPES = [
    ("MSB_INTEGER", 16, ">i2"), ("LSB_INTEGER", 16, "<i2"),
    ("UNSIGNED_INTEGER", 8, "u1"), ("MSB_UNSIGNED_INTEGER", 32, ">u4"),
    ("PC_REAL", 32, "<f4"), ("IEEE_REAL", 64, ">f8"),
    ("LSB_UNSIGNED_INTEGER", 16, "<u2"), ("IEEE_REAL", 32, ">f4"),
    ("SUN_INTEGER", 32, ">i4"), ("PC_UNSIGNED_INTEGER", 32, "<u4"),
    ("MSB_INTEGER", 64, ">i8"), ("VAX_INTEGER", 16, "<i2"),
    ("VAX_REAL", 32, "<f4"),
]


def load(sx, path, name="IMAGE"):
    import pdr
    data = pdr.read(path)
    data._target_path(name)
    return data.load_from_pointer(name)


def geometry(sx, nbmax=1, order=None, types=(0,), fixes=False, suf=".IMG",
             short=True, dims=2**14):
    t = TYPES[sx.choice("type", types)]
    isz = t[1] // 8
    nl, ns = sx.int("nl", 1, dims), sx.int("ns", 1, dims)
    start = sx.int("start", 1, 2**40)
    extra, vals = "", {}
    nb = 1
    if order is not None:
        nb = sx.int("nb", 1, nbmax)
        extra += "  BANDS = {nb}\n"
        vals["nb"] = nb
        if order != "none":
            extra += f"  BAND_STORAGE_TYPE = {order}\n"
    pre = post = 0
    if fixes:
        kind = sx.choice("fix", ["prefix", "suffix", "both"])
        if kind != "suffix":
            pre = sx.int("pre", 0, 2**12)
            extra += "  LINE_PREFIX_BYTES = {prebytes}\n"
            vals["prebytes"] = pre * isz
        if kind != "prefix":
            post = sx.int("post", 0, 2**12)
            extra += "  LINE_SUFFIX_BYTES = {postbytes}\n"
            vals["postbytes"] = post * isz
    need = nl * (ns + pre + post) * nb * isz
    size = sx.int("size", 0, 2**60)
    if not short:
        sx.assume(size >= start - 1 + need)
    path = sx.file("F", size, suf)
    name = sx.choice("name", ["IMAGE", "PREFIX_IMAGE", "SUFFIX_IMAGE"]) \
        if fixes else "IMAGE"
    label = sx.text_file("F.LBL", LABEL.format(
        name=name, rb="{rb}", nl="{nl}", ns="{ns}", start="{start}", suf=suf,
        stype=t[0], bits=t[1], extra=extra,
    ), rb=sx.int("rb", 1, 2**20), nl=nl, ns=ns, start=start, **vals)
    out = sx.run(load, sx, label, name)
    if size < start - 1 + need:
        sx.check(out.exc is not None, "image loaded from a file too short for it")
        return
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    img = out.value[name]
    width = ns + pre + post
    if name != "IMAGE":
        n, skip = (pre, 0) if name[0] == "P" else (post, pre + ns)
        if n == 0:
            sx.check(img is None, "line prefix or suffix of no bytes")
            return
        sx.check(sx.shape(img) == (nl, n), "shape of line prefix or suffix")
        sx.forall((nl, n), lambda l, k: sx.decodes(
            img, (l, k), path, start - 1 + (l * width + skip + k) * isz, t[2]),
            "line prefix or suffix is not the file's bytes")
        return
    isbands = nb > 1
    shape = sx.shape(img)
    sx.check(len(shape) == (3 if isbands else 2), "dimensions")
    sx.check(sx.and_(*[a == b for a, b in zip(
        shape, (nb, nl, ns) if isbands else (nl, ns))]), "shape")
    sx.check(sx.contiguous(img), "C-contiguous")
    first = start - 1

    def pixel(*ix):
        b, (l, s) = (ix[0], ix[1:]) if isbands else (0, ix)
        if order in ("LINE_INTERLEAVED",):
            n = (l * nb + b) * ns + s
        elif order == "SAMPLE_INTERLEAVED":
            n = (l * ns + s) * nb + b
        else:
            n = (b * nl + l) * width + pre + s
        return sx.decodes(img, ix, path, first + n * isz, t[2],
                          vax=t[0] == "VAX_REAL")

    sx.forall(shape, pixel, "pixel is not the file's sample")


F = ["Data.__init__", "read_pvl", "pointer_to_loader", "ReadImage", "softquery",
     "generic_image_properties", "base_sample_info", "im_sample_type",
     "sample_types", "extract_linefix_metadata", "check_fix_validity",
     "get_image_properties", "data_start_byte", "read_image",
     "process_single_band_image", "process_multiband_image",
     "np_from_buffered_io", "make_c_contiguous"]
B = "lines, samples 1..2^14, bands 1..2^10, start byte < 2^40, file size < 2^60"
S = ["np.fromfile/frombuffer/reshape/moveaxis/slices -> strided-view model",
     "file contents opaque: only which bytes a pixel is decoded from"]


def H(name, **params):
    return Harness(name, geometry, F, B, S, params=params)


HARNESSES = [
    H("single_band", types=range(len(TYPES))),
    H("single_band_linefix", types=(0, 2, 4), fixes=True),
    H("band_sequential", types=(0, 2), order="BAND_SEQUENTIAL", nbmax=1024),
    H("line_interleaved", types=(0, 4), order="LINE_INTERLEAVED", nbmax=1024),
    H("sample_interleaved", types=(0, 3), order="SAMPLE_INTERLEAVED", nbmax=1024),
    H("unknown_order", types=(0,), order="WHATEVER", nbmax=1024),
    H("gz", types=(0, 5), suf=".IMG.gz"),
    H("bz2_bil", types=(0,), suf=".IMG.bz2", order="LINE_INTERLEAVED", nbmax=64),
    H("gz_linefix", types=(0,), suf=".IMG.gz", fixes=True),
    H("zip", types=(0,), suf=".IMG.zip"),
    H("zip_bsq", types=(2,), suf=".IMG.zip", order="BAND_SEQUENTIAL", nbmax=64),
]
