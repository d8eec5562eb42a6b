"""C27: images in the formats of everyday computing."""
from symex.api import Harness

PROPERTY = "C27"
PICTURES = True
META = dict(
    title="Pictures in desktop formats hold their file's pixels, frame by frame",
    statement="Reading a PNG, TIFF, JPEG2000, GIF, BMP, WEBP, JPEG or MPO file (by one of the usual "
    "extensions in any case, without a label) gives the pixels that the file holds: an array [line, "
    "sample] for pictures with one band, [band, line, sample] with the bands in the file's order "
    "(red, green, blue, then alpha) for others, of the file's type (8- and 16-bit, boolean, 32-bit "
    "integer, real), and for pictures with a palette the red, green and blue of every pixel's colour. "
    "A picture with a single frame is the object IMAGE. Frame k of an animation (GIF, WEBP) is "
    "FRAME_k; of an MPO the first picture is IMAGE, and picture k is TYPE_k; every object has the "
    "pixels of its own frame, in whatever order they are loaded, and there is one object per frame. "
    "TIFFs with several frames are refused with NotImplementedError. get_scaled gives the pixels as "
    "they are. The metadata give the file's format, mode, width, height, size and (for formats that "
    "have one) number of frames. The same pixels are loaded for an IMAGE whose pointer in a PDS3 "
    "label names such a file; then get_scaled applies the label's SCALING_FACTOR and OFFSET to "
    "JPEG2000, and leaves the other formats' pixels as they are.",
    quantifier="for every value of every pixel of pictures of 2 by 3 pixels (one to four bands, 1 to 12 "
    "frames) in the listed formats and modes, with palettes of four colours",
    why="Frames, bands and palettes can be mixed up in ways that one sample picture does not show: "
    "the wrong frame or the transposed picture is a picture all the same.",
    files=["pdr/pdr.py", "pdr/loaders/handlers.py", "pdr/pil_utils.py", "pdr/utils.py"],
    mechanism=[("reading", "pdr/loaders/handlers.py:handle_compressed_image"),
               ("frames", "pdr/pdr.py:Data._add_compressed_image_objects"),
               ("choosing the frame", "pdr/pdr.py:Data.load"),
               ("recognising pictures", "pdr/utils.py:check_primary_fmt"),
               ("metadata", "pdr/pil_utils.py:skim_image_data")],
    note="The files are made and decoded by Pillow, which is trusted: while symbolic, an opened "
    "picture is a real one of the same format, mode, size, palette and frames, whose pixels are "
    "symbols. Replays write the values into a file and read that. MPO and JPEG are lossy: their "
    "frames are of one grey each. NOT claimed: EXIF, GPS, XMP and colour profiles, GeoTIFF, CMYK.",
)

COLOURS = [(10, 200, 30), (240, 5, 60), (70, 80, 90), (1, 255, 128)]
SHAPE = (2, 3)
BANDS = {"RGB": 3, "RGBA": 4, "LA": 2}
RANGE = {"1": (0, 1), "P": (0, 3), "I;16": (0, 65535), "I": (-2**31, 2**31 - 1)}
OPTIONS = {".webp": dict(lossless=True, exact=True), ".mpo": dict(format="MPO", quality=100),
           ".jpg": dict(quality=100)}


def make(sx, fn, mode, frames=1, kind=None):
    """the file, and the values of its frames: [line][sample] -> bands"""
    ext = kind or fn[fn.rindex("."):].lower()
    grey = ext in (".mpo", ".jpg", ".jpeg")
    shape = (8, 8) if grey else SHAPE
    bands = BANDS.get(mode, 1)
    n = shape[0] * shape[1] * bands
    lo, hi = RANGE.get(mode, (0, 255))
    out = []
    for f in range(frames):
        if grey:
            out.append([sx.int(f"v{f}", 0, 255)] * n)
        elif mode == "F":
            out.append([sx.int(f"v{f}_{i}", -4096, 4096) / 8 for i in range(n)])
        else:
            out.append([sx.int(f"v{f}_{i}", lo, hi) for i in range(n)])
            if mode == "1":
                out[-1] = [v == 1 for v in out[-1]]
    for f in range(1, frames):
        # (frames that are alike are stored as one)
        sx.assume(out[f][0] != out[f - 1][0])
    palette = COLOURS if mode == "P" else None
    path = sx.picture(fn, mode, (*shape, bands) if bands > 1 else shape, out,
                      palette, **OPTIONS.get(ext, {}))
    if mode == "P":
        values = [[[pick(sx, v, b) for b in range(3)] for v in f] for f in out]
        bands = 3
    else:
        values = [[f[i * bands:(i + 1) * bands] for i in range(n // bands)] for f in out]
    return path, values, shape, bands


def pick(sx, v, band):
    out = COLOURS[3][band]
    return sx.ite(v == 0, COLOURS[0][band], sx.ite(
        v == 1, COLOURS[1][band], sx.ite(v == 2, COLOURS[2][band], out)))


def same(sx, a, values, shape, bands, dtype, scale=None):
    if not hasattr(a, "shape"):
        sx.fail("the pixels are loaded")
        return
    want = shape if bands == 1 else (bands, *shape)
    sx.check(tuple(a.shape) == want, "the array has the picture's shape")
    if tuple(a.shape) != want:
        return
    if dtype is not None:
        sx.check(str(a.dtype) == dtype, "the array has the picture's type")
    many = len(values) > 16
    for i in range(0, len(values), 21 if many else 1):
        for b in range(bands):
            ix = (i // shape[1], i % shape[1])
            got = sx.elem(a, *(ix if bands == 1 else (b, *ix)))
            v = values[i][b]
            if scale:
                v = v * scale[0] + scale[1]
            sx.check(got == v, "every pixel is the file's")


TYPES = {"1": "bool", "I;16": "uint16", "I": "int32", "F": "float32"}


def primary(sx, fn, mode, frames=1, order=None, standard=None, names=None, kind=None,
            scaled=False):
    import pdr
    path, values, shape, bands = make(sx, fn, mode, frames, kind)
    out = sx.run(pdr.read, path)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    names = names or (["IMAGE"] if frames == 1 else [f"FRAME_{k}" for k in range(frames)])
    sx.check(list(data.keys()) == names, "there is an object for every frame")
    sx.check(data.standard == standard, "the format is recognised")
    for key, want in (("format", standard), ("width", shape[1]), ("height", shape[0]),
                      ("size", (shape[1], shape[0])), ("mode", mode)):
        out = sx.run(data.metaget, key)
        got = out.value if out.ok else None
        sx.check(got == want, f"the metadata give the {key}")
    if frames > 1:
        sx.check(data.metaget("n_frames") == frames, "the metadata give the number of frames")
    for k in order or range(frames):
        out = sx.run(lambda: data.get_scaled(names[k]) if scaled else data[names[k]])
        if not out.ok:
            sx.fail(f"unexpected exception {out.excname}")
            return
        same(sx, out.value, values[k], shape, bands, TYPES.get(mode, "uint8"))
    # nothing has changed since
    for k in order or range(frames):
        same(sx, data[names[k]], values[k], shape, bands, TYPES.get(mode, "uint8"))


def refused(sx, fn, mode, frames):
    import pdr
    path, *_ = make(sx, fn, mode, frames)
    out = sx.run(pdr.read, path)
    sx.check(not out.ok and out.raised(NotImplementedError),
             "several frames of this format are refused")


LABEL = """PDS_VERSION_ID = PDS3
RECORD_TYPE = UNDEFINED
^IMAGE = "{fn}"
OBJECT = IMAGE
  LINES = 2
  LINE_SAMPLES = 3
  SAMPLE_TYPE = UNSIGNED_INTEGER
  SAMPLE_BITS = 8
  SCALING_FACTOR = 3
  OFFSET = 1000
END_OBJECT = IMAGE
END
"""


def labelled(sx, fn, mode, label="a.lbl"):
    import pdr
    path, values, shape, bands = make(sx, fn, mode)
    label = sx.text_file(label, LABEL.replace("{fn}", fn))
    out = sx.run(pdr.read, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    out = sx.run(lambda: data["IMAGE"])
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    same(sx, out.value, values[0], shape, bands, TYPES.get(mode, "uint8"))
    out = sx.run(data.get_scaled, "IMAGE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    same(sx, out.value, values[0], shape, bands, None,
         (3, 1000) if fn.lower().endswith("jp2") else None)


F = "pdr.pdr: Data (construction, load, _add_compressed_image_objects, get_scaled); pdr.loaders.handlers: handle_compressed_image; pdr.pil_utils: skim_image_data; pdr.utils: check_primary_fmt"
B = "pictures of 2 by 3 pixels (MPO: 8 by 8, of one grey)"


def H(name, run, budget=60, **params):
    return Harness(name, run, F, B, "all pixels", params=params, budget=budget)


HARNESSES = [
    H(f"{m.replace(';', '')}_{fn.replace('.', '_')}", primary, fn=fn, mode=m, standard=st, scaled=sc)
    for m, fn, st, sc in (
        ("L", "a.png", "PNG", 0), ("RGB", "a.PNG", "PNG", 1), ("RGBA", "a.png", "PNG", 0),
        ("LA", "a.png", "PNG", 0), ("P", "a.png", "PNG", 1), ("1", "a.png", "PNG", 0),
        ("I;16", "a.png", "PNG", 0),
        ("L", "a.tif", "TIFF", 1), ("RGB", "a.TIFF", "TIFF", 0), ("I;16", "a.tif", "TIFF", 0),
        ("I", "a.tif", "TIFF", 0), ("F", "a.tif", "TIFF", 1), ("RGBA", "a.tiff", "TIFF", 0),
        ("P", "a.tif", "TIFF", 0),
        ("RGB", "a.bmp", "BMP", 0), ("L", "a.bmp", "BMP", 0), ("P", "a.bmp", "BMP", 0),
        ("L", "a.jp2", "JPEG2000", 1), ("RGB", "a.jp2", "JPEG2000", 0),
        ("I;16", "a.jp2", "JPEG2000", 0),
        ("RGB", "a.webp", "WEBP", 0), ("P", "a.gif", "GIF", 0), ("L", "a.jpg", "JPEG", 0))
] + [
    H("gif2", primary, fn="a.gif", mode="P", frames=2, standard="GIF"),
    H("gif3", primary, fn="a.gif", mode="P", frames=3, standard="GIF", order=[2, 0, 1]),
    H("gif12", primary, fn="a.GIF", mode="P", frames=12, standard="GIF", order=[11, 1, 10, 0]),
    H("webp3", primary, fn="a.webp", mode="RGB", frames=3, standard="WEBP", order=[1, 2, 0],
      scaled=True),
    H("mpo3", primary, fn="a.jpg", kind=".mpo", mode="L", frames=3, standard="MPO",
      order=[2, 0, 1], names=["IMAGE", "Undefined_1", "Undefined_2"]),
    H("tif2", refused, fn="a.tif", mode="L", frames=2),
    H("labelled_png", labelled, fn="a.png", mode="L"),
    H("labelled_rgb", labelled, fn="a.tif", mode="RGB"),
    H("labelled_palette", labelled, fn="a.gif", mode="P"),
    H("labelled_jp2", labelled, fn="a.jp2", mode="L"),
]
