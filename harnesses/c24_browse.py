"""C24: pictures of images (show, dump_browse)."""
from fractions import Fraction

from symex.api import Harness

PROPERTY = "C24"
PICTURES = True
META = dict(
    title="Browse pictures show the right bands, stretched from black to white",
    statement="Data.show(name) gives a picture of an image in which every pixel, at its line "
    "and sample, is as bright as its value is far between the least and the greatest value: "
    "the least is black (0), the greatest white (255), and a pixel between them has "
    "255 * (value - least) / (greatest - least) to within one step, whatever the image's type "
    "(8-, 16- and 32-bit integers, signed and unsigned, single and double reals) and without "
    "wrapping around; scaled values (the default) are used if the label has a factor or offset, "
    "stored values with scaled=False. image_clip=p or (low, high) makes the percentiles low and "
    "100 - high (linear, of the values that are not missing) the least and greatest values, and "
    "values beyond them black and white; 0 does not clip, and the default is (1, 1). Pixels "
    "whose values are missing do not count for the least and greatest and have exactly "
    "mask_color (default (0, 255, 255); one number makes a grey picture), also if all pixels "
    "are missing; a picture with missing pixels is RGB with the others grey. An image of "
    "neither 3 nor 4 bands (or any with override_rgba=True) shows the band band_ix (negative "
    "ones from the end), the middle band without band_ix or if there is no such band, and with "
    "band_ix='burst' a list of one picture of each band, each stretched by itself. An image of "
    "3 or 4 bands shows its first three as red, green and blue, stretched together; "
    "rgb_channels shows those three bands of any image as red, green and blue. slice_axis makes "
    "that axis the bands (the axes 0 and slice_axis are exchanged). Making a picture does not "
    "change the image. Data.dump_browse writes the same pictures of the loaded images, and of "
    "no other, to outpath/PREFIX_NAME.EXT: PREFIX is the stem of the file's name unless prefix "
    "is given, EXT is image_format (default jpg), with scaled='both' the scaled picture to "
    "PREFIX_NAME_scaled.EXT and the unscaled one to PREFIX_NAME_unscaled.EXT, with 'burst' band "
    "k to PREFIX_NAME_k.EXT; with purge=True the images are deleted from the Data object after "
    "that, else they are kept, and the pictures are the same.",
    quantifier="for every pixel value of images of 2 to 12 pixels in 1 to 7 bands (with the least "
    "and greatest value any pair of the stated difference, at several places), every value of "
    "the missing constant, the factors, clips, colours, bands, channels and axes in the list of "
    "harnesses",
    why="browse pictures are how users look at products before anything else, and a wrong one "
    "looks like data: integers that wrap around, percentiles of the wrong end, masks of the "
    "wrong channel or a stretched copy of an already stretched image only show for particular "
    "values; the tests compare no pixel of a picture with the image",
    files=["pdr/browsify.py", "pdr/pdr.py"],
    mechanism=[("bands", "pdr/browsify.py:_format_multiband_image"),
               ("stretch", "pdr/browsify.py:normalize_range"),
               ("masks", "pdr/browsify.py:colorfill_maskedarray"),
               ("pictures", "pdr/browsify.py:_render_array"),
               ("showing", "pdr/pdr.py:show"), ("saving", "pdr/pdr.py:dump_browse")],
    note="PIL.Image.fromarray is represented by the array it is given (types other than 8-bit "
    "are tried out on it), saving by the file name and the array; both are real in replays "
    "(PNG files are read back; of JPG files only the size is compared). numpy's percentile, "
    "clip, sort, round and min/max are encoded; reals are exact. NOT claimed: images of one "
    "value only, NaN and infinite pixels, 64-bit integers near their limits, "
    "pictures wider than 65500 pixels, complex images, browse files of tables "
    "and texts.",
)

LABEL = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^IMAGE = "F.IMG"
OBJECT = IMAGE
  LINES = {nl}
  LINE_SAMPLES = {ns}
  BANDS = {nb}
  BAND_STORAGE_TYPE = BAND_SEQUENTIAL
  SAMPLE_TYPE = {st}
  SAMPLE_BITS = {bits}
{more}END_OBJECT = IMAGE
END
"""

TYPES = {
    "u1": ("MSB_UNSIGNED_INTEGER", 8, 0, 255),
    "i1": ("MSB_INTEGER", 8, -128, 127),
    # (without what stands for missing values)
    "u2": ("MSB_UNSIGNED_INTEGER", 16, 3, 65532),
    "i2": ("LSB_INTEGER", 16, -32763, 32766),
    "u4": ("LSB_UNSIGNED_INTEGER", 32, 0, 2**32 - 2**24 - 1),
    "i4": ("MSB_INTEGER", 32, -2**31 + 1, 2**31 - 2),
    "f4": ("PC_REAL", 32, -2**22, 2**22), "f8": ("IEEE_REAL", 64, -2**22, 2**22),
}


def dtype(t):
    return ("<" if TYPES[t][0][0] in "LP" else ">") + t if t[1] != "1" else t


def get(label, kw):
    import pdr
    data = pdr.read(label)
    before = data["IMAGE"].copy()
    return data.show("IMAGE", **kw), before, data["IMAGE"]


def stored(sx, t, n, d, at, group=None):
    """n pixels; the least is any value, the greatest is greater by d, and
    both are among those of the group"""
    group = range(n) if group is None else group
    _, _, a, b = TYPES[t]
    low = sx.int("low", a, b - d if t[0] != "f" else b)
    lo, hi = at
    out = []
    for i in range(n):
        if i == group[lo]:
            v = low
        elif i == group[hi]:
            v = low + d
        elif i in group:
            v = low + sx.int(f"p{i}", 0, d)
        else:
            v = sx.int(f"p{i}", a, b)
        out.append(v / 64 if t[0] == "f" else v)
    return out


def write(sx, t, pix, shape, more="", **vals):
    nb, nl, ns = shape
    st, bits = TYPES[t][:2]
    sx.const_hash()
    sx.value_file("F", [(dtype(t), p) for p in pix], ".IMG")
    return sx.text_file("F.LBL", LABEL.format(
        nb=nb, nl=nl, ns=ns, st=st, bits=bits, more=more), **vals)


def check_picture(sx, pic, values, nl, ns, least, most, masked=None, color=None,
                  gray=True):
    """values: for each pixel (line by line) what is shown, or a triple of them"""
    shape = sx.shape(pic)
    rgb = len(shape) == 3
    sx.check(tuple(shape[:2]) == (nl, ns), "size of the picture")
    if tuple(shape[:2]) != (nl, ns):
        return
    if rgb:
        sx.check(shape[2] == 3, "channels")
        if shape[2] != 3:
            return
    else:
        sx.check(gray, "colours")
        if not gray:
            return
    d = most - least
    for i, v in enumerate(values):
        bad = masked is not None and i == masked
        for c in range(3):
            if not rgb and c:
                break
            got = sx.elem(pic, i // ns, i % ns, *((c,) if rgb else ()))
            if bad:
                sx.check(got == color[c], "colour of masked pixels")
                continue
            x = v[c] if isinstance(v, tuple) else v
            x = sx.max(least, sx.min(most, x))
            e = got * d - 255 * (x - least)
            sx.check(sx.and_(-d <= e, e <= d), "brightness")


def result(sx, out):
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None
    pic, before, after = out.value
    sx.check(sx.shape(before) == sx.shape(after), "the image itself is changed")
    if sx.shape(before) == sx.shape(after):
        import itertools
        for ix in itertools.product(*map(range, sx.shape(before))):
            sx.check(sx.elem(before, *ix) == sx.elem(after, *ix), "the image itself is changed")
    return pic


def stretch(sx, t, d, shape=(2, 2), scaled=True, factor=None, offset=None):
    """one band without clipping"""
    nl, ns = shape
    n = nl * ns
    at = sx.choice("at", [(0, n - 1), (n - 1, 0), (1, 0), (1, 2)])
    pix = stored(sx, t, n, d, at)
    more = ""
    if factor is not None:
        more += f"  SCALING_FACTOR = {factor}\n"
    if offset is not None:
        more += f"  OFFSET = {offset}\n"
    label = write(sx, t, pix, (1, nl, ns), more)
    out = sx.run(get, label, dict(image_clip=0, scaled=scaled))
    pic = result(sx, out)
    if pic is None:
        return
    lo, hi = pix[at[0]], pix[at[1]]
    if scaled and factor is not None and factor < 0:
        # the picture is inverted
        pix, lo, hi = [-p for p in pix], -hi, -lo
    check_picture(sx, sx.pixels(pic), pix, nl, ns, lo, hi)


def middle(nb):
    return nb // 2


def bands(sx, t, nb, shape, pick, d=90, gray=True, **kw):
    """an image of several bands; pick(b, l, s) -> what is shown: {(line,
    sample): pixel or triple of pixels} by index"""
    nl, ns = shape
    n = nb * nl * ns

    def ix(b, l, s):
        return (b * nl + l) * ns + s
    size, shown = pick(ix)
    flat = []
    for v in shown:
        flat += v if isinstance(v, tuple) else [v]
    group = sorted(set(flat))
    at = sx.choice("at", [(0, len(group) - 1), (len(group) - 1, 0)])
    pix = stored(sx, t, n, d, at, group)
    label = write(sx, t, pix, (nb, nl, ns))
    out = sx.run(get, label, dict(image_clip=0, **kw))
    pic = result(sx, out)
    if pic is None:
        return
    check_picture(
        sx, sx.pixels(pic),
        [tuple(pix[i] for i in v) if isinstance(v, tuple) else pix[v] for v in shown],
        *size, pix[group[at[0]]], pix[group[at[1]]], gray=gray)


def one(b, nl, ns):
    return lambda ix: ((nl, ns), [ix(b, l, s) for l in range(nl) for s in range(ns)])


def rgb(bs, nl, ns):
    return lambda ix: ((nl, ns), [tuple(ix(b, l, s) for b in bs)
                                  for l in range(nl) for s in range(ns)])


def across(l, nb, ns):
    """slice_axis=1: lines are bands"""
    return lambda ix: ((nb, ns), [ix(b, l, s) for b in range(nb) for s in range(ns)])


def along(s, nb, nl):
    """slice_axis=2: samples are bands"""
    return lambda ix: ((nl, nb), [ix(b, l, s) for l in range(nl) for b in range(nb)])


def along_rgb(nb, nl):
    return lambda ix: ((nl, nb), [tuple(ix(b, l, s) for s in range(3))
                                  for l in range(nl) for b in range(nb)])


def burst(sx, t, nb, shape, d=90, **kw):
    nl, ns = shape
    m = nl * ns
    _, _, a, b = TYPES[t]
    pix = []
    for k in range(nb):
        low = sx.int(f"low{k}", a, b - d)
        mid = [low + sx.int(f"p{k}_{j}", 0, d) for j in range(m - 2)]
        band = [low] + mid + [low + d]
        pix += band if k % 2 else band[::-1]
    label = write(sx, t, pix, (nb, nl, ns))
    out = sx.run(get, label, dict(image_clip=0, band_ix="burst", **kw))
    pics = result(sx, out)
    if pics is None:
        return
    sx.check(isinstance(pics, (list, tuple)) and len(pics) == nb, "one picture for each band")
    if not isinstance(pics, (list, tuple)) or len(pics) != nb:
        return
    for k, pic in enumerate(pics):
        band = pix[k * m:(k + 1) * m]
        lo, hi = (band[0], band[-1]) if k % 2 else (band[-1], band[0])
        check_picture(sx, sx.pixels(pic), band, nl, ns, lo, hi)


def masks(sx, t, d, kw=None, color=(0, 255, 255), nb=1, factor=None, offset=None,
          at=0, inside=None, gray=False):
    """one pixel is missing"""
    nl, ns = 2, 2
    n = nb * nl * ns
    _, _, a, b = TYPES[t]
    low = sx.int("low", a, b - d)
    pix = [low + sx.int(f"p{i}", 0, d) for i in range(n)]
    rest = [i for i in range(n) if i != at]
    i, j = sx.choice("ends", [(rest[0], rest[-1]), (rest[-1], rest[1])])
    pix[i], pix[j] = low, low + d
    mc = sx.int("missing", a, b) if not inside else low + inside
    pix[at] = mc
    for k in rest:
        sx.assume(pix[k] != mc)
    more = "  MISSING_CONSTANT = {mc}\n"
    if factor is not None:
        more += f"  SCALING_FACTOR = {factor}\n"
    if offset is not None:
        more += f"  OFFSET = {offset}\n"
    label = write(sx, t, pix, (nb, nl, ns), more, mc=mc)
    out = sx.run(get, label, dict(image_clip=0, **(kw or {})))
    pic = result(sx, out)
    if pic is None:
        return
    arr = sx.pixels(pic)
    lo, hi = low, low + d
    if factor is not None and factor < 0:
        pix, lo, hi = [-p for p in pix], -hi, -lo
    shape = sx.shape(arr)
    size = (nl, ns) if gray else (nl, ns, 3)
    sx.check(shape == size, "size of the picture")
    if shape != size:
        return
    for p in range(nl * ns):
        for c in range(1 if gray else 3):
            got = sx.elem(arr, p // ns, p % ns, *(() if gray else (c,)))
            k = p + (c * nl * ns if nb == 3 else 0)
            if k == at:
                sx.check(got == (color if gray else color[c]), "colour of masked pixels")
            else:
                e = got * d - 255 * (pix[k] - lo)
                sx.check(sx.and_(-d <= e, e <= d), "brightness")


def all_masked(sx, t, color=(0, 255, 255), **kw):
    mc = sx.int("missing", *TYPES[t][2:])
    label = write(sx, t, [mc] * 4, (1, 2, 2), "  MISSING_CONSTANT = {mc}\n", mc=mc)
    out = sx.run(get, label, kw)
    pic = result(sx, out)
    if pic is None:
        return
    arr = sx.pixels(pic)
    sx.check(sx.shape(arr) == (2, 2, 3), "size of the picture")
    if sx.shape(arr) != (2, 2, 3):
        return
    for l in range(2):
        for s in range(2):
            for c in range(3):
                sx.check(sx.elem(arr, l, s, c) == color[c], "colour of masked pixels")


def clip(sx, t, xs, lo, hi, masked=False, scaled=True, **kw):
    """five pixels: all but the median are known"""
    order = sx.choice("order", [(0, 1, 2, 3, 4), (4, 2, 0, 1, 3), (3, 4, 1, 2, 0)])
    x2 = sx.int("median", xs[1], xs[2])
    vals = [xs[0], xs[1], x2, xs[2], xs[3]]
    pix = [vals[k] for k in order]
    more, vs = "", {}
    if masked:
        mc = sx.choice("missing", [xs[0] - 50, xs[3] + 50])
        pix.insert(sx.choice("where", [0, 3, 5]), mc)
        more, vs = "  MISSING_CONSTANT = {mc}\n", dict(mc=mc)
    label = write(sx, t, pix, (1, 1, len(pix)), more, **vs)
    out = sx.run(get, label, dict(scaled=scaled, **kw))
    pic = result(sx, out)
    if pic is None:
        return
    arr = sx.pixels(pic)
    size = (1, len(pix)) + ((3,) if masked else ())
    sx.check(sx.shape(arr) == size, "size of the picture")
    if sx.shape(arr) != size:
        return
    d = hi - lo
    for i, p in enumerate(pix):
        for c in range(3 if masked else 1):
            got = sx.elem(arr, 0, i, *((c,) if masked else ()))
            if masked and p is mc:
                sx.check(got == (0, 255, 255)[c], "colour of masked pixels")
                continue
            x = sx.max(lo, sx.min(hi, p))
            e = got * d - 255 * (x - lo)
            sx.check(sx.and_(-d <= e, e <= d), "brightness")


LABEL2 = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 1
FILE_RECORDS = 8
^IMAGE = ("F.IMG", 1)
^SMALL_IMAGE = ("F.IMG", 5)
OBJECT = IMAGE
  LINES = 2
  LINE_SAMPLES = 2
  SAMPLE_TYPE = MSB_UNSIGNED_INTEGER
  SAMPLE_BITS = 8
{more}END_OBJECT = IMAGE
OBJECT = SMALL_IMAGE
  LINES = 1
  LINE_SAMPLES = 4
  SAMPLE_TYPE = MSB_UNSIGNED_INTEGER
  SAMPLE_BITS = 8
END_OBJECT = SMALL_IMAGE
END
"""


def dump(label, load, folder, kw):
    import pdr
    data = pdr.read(label)
    for name in load:
        data.load(name)
    data.dump_browse(outpath=folder, **kw)
    return [n for n in load if n in dir(data)]


def saved(sx, load=("IMAGE", "SMALL_IMAGE"), stem="F", more="", inverted=False,
          scaled=True, purge=False, ext="png", **kw):
    d = 100
    pix = []
    for k in range(2):
        low = sx.int(f"low{k}", 0, 255 - d)
        band = [low] + [low + sx.int(f"p{k}_{j}", 0, d) for j in range(2)] + [low + d]
        pix.append((band, low, low + d))
    sx.const_hash()
    sx.value_file("F", [("u1", p) for band, _, _ in pix for p in band], ".IMG")
    label = sx.text_file("F.LBL", LABEL2.format(more=more))
    folder = sx.folder("out")
    kw = dict(kw, image_clip=0)
    if scaled is not True:
        kw["scaled"] = scaled
    if purge:
        kw["purge"] = True
    if ext != "jpg":
        kw["image_format"] = ext
    out = sx.run(dump, label, load, folder, kw)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(set(out.value) == (set() if purge else set(load)),
             "objects are deleted if and only if they are to be purged")
    pics = sx.pictures(folder)
    want = {}
    for k, name in enumerate(("IMAGE", "SMALL_IMAGE")):
        if name in load:
            band, lo, hi = pix[k]
            turned = ([-p for p in band], -hi, -lo) if inverted and k == 0 else (band, lo, hi)
            if scaled == "both":
                want[f"{stem}_{name}_scaled.{ext}"] = k, turned
                want[f"{stem}_{name}_unscaled.{ext}"] = k, (band, lo, hi)
            else:
                want[f"{stem}_{name}.{ext}"] = k, turned if scaled else (band, lo, hi)
    sx.check(set(want) == set(pics), "files that are written")
    if set(want) != set(pics):
        return
    for name, (k, (band, lo, hi)) in want.items():
        if ext == "jpg":    # lossy
            sx.check(sx.shape(pics[name]) == ((2, 2), (1, 4))[k], "size of the picture")
        else:
            check_picture(sx, pics[name], band, *((2, 2), (1, 4))[k], lo, hi)


def saved_bands(sx, nb, prefix=None, burst=True, purge=False):
    d = 100
    pix = []
    for k in range(nb):
        low = sx.int(f"low{k}", 0, 255 - d)
        pix.append([low, low + sx.int(f"p{k}", 0, d), low + d])
    label = write(sx, "u1", [p for b in pix for p in b], (nb, 1, 3))
    folder = sx.folder("out")
    kw = dict(image_clip=0, image_format="png", purge=purge)
    if prefix:
        kw["prefix"] = prefix
    if burst:
        kw["band_ix"] = "burst"
    out = sx.run(dump, label, ["IMAGE"], folder, kw)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    pics = sx.pictures(folder)
    stem = (prefix or "F") + "_IMAGE"
    want = {f"{stem}_{k}.png": k for k in range(nb)} if burst else {f"{stem}.png": nb // 2}
    sx.check(set(want) == set(pics), "files that are written")
    if set(want) != set(pics):
        return
    for name, k in want.items():
        check_picture(sx, pics[name], pix[k], 1, 3, pix[k][0], pix[k][2])


def saved_masked(sx, purge=True):
    """scaled and unscaled pictures of an image of reals with missing values"""
    low = sx.int("low", -100, 100)
    d = 800
    mc = sx.int("missing", 2000, 9000)
    pix = [low, mc, low + sx.int("p", 0, d), low + d]
    sx.const_hash()
    sx.value_file("F", [("<f4", p / 64 if k != 1 else p) for k, p in enumerate(pix)], ".IMG")
    label = sx.text_file("F.LBL", LABEL.format(
        nb=1, nl=1, ns=4, st=TYPES["f4"][0], bits=32, more="  MISSING_CONSTANT = {mc}\n"), mc=mc)
    folder = sx.folder("out")
    out = sx.run(dump, label, ["IMAGE"], folder, dict(
        scaled="both", image_clip=0, image_format="png", purge=purge))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    pics = sx.pictures(folder)
    names = ["F_IMAGE_scaled.png", "F_IMAGE_unscaled.png"]
    sx.check(list(pics) == names, "files that are written")
    if list(pics) != names:
        return
    arr = pics[names[0]]
    sx.check(sx.shape(arr) == (1, 4, 3), "size of the picture")
    if sx.shape(arr) != (1, 4, 3):
        return
    for i, p in enumerate(pix):
        for c in range(3):
            got = sx.elem(arr, 0, i, c)
            if i == 1:
                sx.check(got == (0, 255, 255)[c], "colour of masked pixels")
            else:
                e = got * d - 255 * (p - low)
                sx.check(sx.and_(-d <= e, e <= d), "brightness")
    pix[1] = mc * 64
    arr = pics[names[1]]
    sx.check(sx.shape(arr) == (1, 4), "size of the picture")
    if sx.shape(arr) != (1, 4):
        return
    for i, p in enumerate(pix):
        e = sx.elem(arr, 0, i) * (pix[1] - low) - 255 * (p - low)
        sx.check(sx.and_(low - pix[1] <= e, e <= pix[1] - low), "brightness")


def H(title, fn, **params):
    return Harness(title, fn, F, B, S, params=params)


F = ["Data.show", "Data.get_scaled", "_browsify_array", "_format_multiband_image",
     "_format_as_rgb", "_format_as_single_band", "_render_array", "eightbit",
     "normalize_range", "find_masked_bounds", "find_unmasked_bounds",
     "colorfill_maskedarray"]
B = "images of <= 6 pixels"
S = ["Pillow images are represented by the arrays they are made of"]

HARNESSES = [
    H("u1_full", stretch, t="u1", d=255),
    H("u1", stretch, t="u1", d=37, shape=(1, 4), scaled=False),
    H("i1", stretch, t="i1", d=200, shape=(4, 1)),
    H("u2", stretch, t="u2", d=65000),
    H("i2", stretch, t="i2", d=65529, scaled=False),
    H("u4", stretch, t="u4", d=2**31 + 5),
    H("i4", stretch, t="i4", d=2**31 + 2**20, scaled=False),
    H("i4_scaled", stretch, t="i4", d=2**32 - 4, factor=1, offset=0),
    H("f4", stretch, t="f4", d=4000),
    H("f8", stretch, t="f8", d=1, scaled=False),
    H("u2_scaled", stretch, t="u2", d=60000, factor=3, offset=-7),
    H("i2_scaled", stretch, t="i2", d=999, factor=-0.5, offset=10.25),
    # bands
    H("bands_2", bands, t="u1", nb=2, shape=(2, 2), pick=one(1, 2, 2)),
    H("bands_3", bands, t="u1", nb=3, shape=(1, 2), pick=one(1, 1, 2), override_rgba=True),
    H("bands_7", bands, t="u1", nb=7, shape=(1, 2), pick=one(3, 1, 2)),
    H("bands_5", bands, t="u1", nb=5, shape=(1, 2), pick=one(2, 1, 2)),
    H("bands_6", bands, t="u2", nb=6, shape=(2, 1), pick=one(3, 2, 1)),
    H("band_0", bands, t="i2", nb=2, shape=(1, 3), pick=one(0, 1, 3), band_ix=0),
    H("band_4", bands, t="u1", nb=5, shape=(1, 2), pick=one(4, 1, 2), band_ix=4),
    H("band_minus_1", bands, t="u1", nb=5, shape=(1, 2), pick=one(4, 1, 2), band_ix=-1),
    H("band_none", bands, t="u1", nb=5, shape=(1, 2), pick=one(2, 1, 2), band_ix=7),
    H("band_none_3", bands, t="u1", nb=3, shape=(1, 2), pick=one(1, 1, 2), band_ix=3,
      override_rgba=True),
    H("rgb", bands, t="u1", nb=3, shape=(1, 2), pick=rgb((0, 1, 2), 1, 2), gray=False),
    H("rgb_tall", bands, t="i2", nb=3, shape=(3, 1), pick=rgb((0, 1, 2), 3, 1), gray=False),
    H("rgba", bands, t="u1", nb=4, shape=(1, 2), pick=rgb((0, 1, 2), 1, 2), gray=False),
    H("rgb_band", bands, t="u1", nb=3, shape=(1, 2), pick=rgb((0, 1, 2), 1, 2), gray=False,
      band_ix=1),
    H("rgb_override", bands, t="u1", nb=3, shape=(2, 2), pick=one(0, 2, 2), band_ix=0,
      override_rgba=True),
    H("rgba_override", bands, t="u2", nb=4, shape=(1, 3), pick=one(3, 1, 3), band_ix=3,
      override_rgba=True),
    H("rgba_middle", bands, t="u1", nb=4, shape=(1, 3), pick=one(2, 1, 3), override_rgba=True),
    H("channels", bands, t="u1", nb=3, shape=(1, 2), pick=rgb((2, 0, 1), 1, 2), gray=False,
      rgb_channels=(2, 0, 1)),
    H("channels_5", bands, t="u1", nb=5, shape=(1, 2), pick=rgb((4, 1, 2), 1, 2), gray=False,
      rgb_channels=(4, 1, 2), band_ix=1),
    H("axis_1", bands, t="u1", nb=3, shape=(2, 2), pick=across(1, 3, 2), slice_axis=1, band_ix=1),
    H("axis_2", bands, t="u1", nb=2, shape=(2, 5), pick=along(2, 2, 2), slice_axis=2),
    H("axis_2_rgb", bands, t="u1", nb=2, shape=(2, 3), pick=along_rgb(2, 2), slice_axis=2,
      gray=False),
    H("burst_2", burst, t="u1", nb=2, shape=(1, 3)),
    H("burst_5", burst, t="i2", nb=5, shape=(2, 1)),
    H("burst_rgb", burst, t="u1", nb=3, shape=(1, 3), override_rgba=True),
    # missing values
    H("masks_u1", masks, t="u1", d=100),
    H("masks_i2", masks, t="i2", d=10000, at=3, inside=5000, kw=dict(mask_color=(1, 2, 3)),
      color=(1, 2, 3)),
    H("masks_even", masks, t="u1", d=50, at=2, kw=dict(mask_color=(50, 50, 50)),
      color=(50, 50, 50)),
    H("masks_gray", masks, t="u1", d=77, at=1, kw=dict(mask_color=9), color=9, gray=True),
    H("masks_scaled", masks, t="u2", d=100, at=2, factor=-0.5, offset=3),
    H("masks_shifted", masks, t="i2", d=100, at=0, factor=1, offset=300),
    H("masks_rgb", masks, t="u1", d=100, nb=3, at=6),
    H("masks_channels", masks, t="u1", d=100, nb=3, at=1, kw=dict(rgb_channels=(0, 1, 2))),
    H("masks_all", all_masked, t="u1"),
    H("masks_all_0", all_masked, t="i2", color=(7, 8, 9), mask_color=(7, 8, 9), image_clip=0),
    # clips
    H("clip_25", clip, t="u1", xs=(10, 30, 90, 200), lo=30, hi=90, image_clip=25),
    H("clip_pair", clip, t="i2", xs=(-5000, -3000, 800, 20000), lo=-4200, hi=800,
      image_clip=(10, 25)),
    H("clip_low", clip, t="u2", xs=(1000, 3000, 8000, 20000), lo=1800, hi=20000,
      image_clip=(10, 0)),
    H("clip_high", clip, t="u1", xs=(0, 100, 150, 250), lo=0, hi=210, image_clip=(0, 10),
      scaled=False),
    H("clip_default", clip, t="u1", xs=(0, 100, 150, 250), lo=4, hi=246, scaled=False),
    H("clip_f8", clip, t="f8", xs=(0, 1, 2, 4), lo=Fraction(2, 5), hi=Fraction(16, 5),
      image_clip=10),
    H("clip_masked", clip, t="u1", xs=(60, 100, 150, 200), lo=76, hi=150, masked=True,
      image_clip=(10, 25)),
    H("clip_masked_low", clip, t="i2", xs=(60, 100, 150, 200), lo=76, hi=200, masked=True,
      image_clip=(10, 0)),
    H("clip_masked_high", clip, t="i4", xs=(60, 100, 150, 200), lo=60, hi=180, masked=True,
      image_clip=(0, 10)),
    H("clip_masked_default", clip, t="u1", xs=(50, 100, 150, 200), lo=52, hi=198, masked=True),
    # files
    H("dump", saved),
    H("dump_one", saved, load=("SMALL_IMAGE",)),
    H("dump_jpg", saved, ext="jpg"),
    H("dump_prefix", saved, prefix="P", stem="P"),
    H("dump_scaled", saved, more="  SCALING_FACTOR = -2\n", inverted=True),
    H("dump_unscaled", saved, more="  SCALING_FACTOR = -2\n", inverted=True, scaled=False),
    H("dump_both", saved, more="  SCALING_FACTOR = -2\n", inverted=True, scaled="both"),
    H("dump_purge", saved, more="  SCALING_FACTOR = -0.5\n", inverted=True, purge=True),
    H("dump_purge_both", saved, more="  SCALING_FACTOR = -2\n", inverted=True, scaled="both",
      purge=True),
    H("dump_masked", saved_masked, purge=False),
    H("dump_masked_purge", saved_masked),
    H("dump_band", saved_bands, nb=5, burst=False),
    H("dump_burst", saved_bands, nb=2),
    H("dump_burst_prefix", saved_bands, nb=5, prefix="X_1.0", purge=True),
]
