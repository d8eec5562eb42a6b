"""C21: the HDU of a FITS file that is loaded is the one that was named."""
from harnesses.c17_pds4_arrays import IDENT, NAME, array, axis, product as xml
from symex.api import Harness

FITS = True
PROPERTY = "C21"
META = dict(
    title="The HDU of a FITS file that is loaded is the one that was named",
    statement="For a PDS3 object in a FITS file (.FITS, .FIT, .fits, .fits.gz) of 1-4 HDUs: a pointer to where an HDU's data begin, as a record number (2880 bytes), <RECORDS> or <BYTES>, loads that HDU's data and its header (as NAME_HEADER); a pointer for a HEADER object to where an HDU's header begins loads that header; a pointer to anywhere else never loads an HDU from another place. A FITS file opened without a label lists its HDUs by name, numbered where names are the same, and each loads the data and header of that HDU, in whatever order they are loaded. In PDS4 products, a Header and an Array at byte offsets of a FITS file load the header and the data of the HDU that is there. Headers hold every card of the HDU in its order, with its value and its comment, cards without a value included.",
    quantifier="all sizes of headers and data of every HDU, all positions of pointers, all integer values of cards",
    why="Positions are matched against every HDU's header and data, with several ways to count; a coincidence of numbers or an offset by one selects another HDU's data without any error.",
    files=["pdr/loaders/handlers.py", "pdr/loaders/queries.py", "pdr/pdr.py", "pdr/loaders/datawrap.py"],
    mechanism=[("HDU for a pointer", "pdr/loaders/queries.py:get_fits_start_byte"),
               ("matching positions", "pdr/loaders/queries.py:_agnostic_fits_index"),
               ("positions of HDUs", "pdr/loaders/handlers.py:hdu_byte_index"),
               ("loading", "pdr/loaders/handlers.py:handle_fits_file"),
               ("headers", "pdr/loaders/handlers.py:unpack_fits_headers"),
               ("without label", "pdr/pdr.py:Data._load_primary_fits")],
    note="astropy.io.fits.open is modelled: a list of HDUs with symbolic header sizes (1..64 blocks) and data sizes (0..4096 blocks); what astropy makes of the bytes is not covered, and every path is replayed with real files and the real astropy. RECORD_BYTES is 2880. FITS tables, positions counted from 0, pointers without a position, and HDU names that end in a number are not covered.",
)
LABEL = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2880
FILE_RECORDS = 100
{pointers}{objects}END
"""
OBJECT = """OBJECT = {name}
  BYTES = 2880
  LINES = 1
  LINE_SAMPLES = 2880
  SAMPLE_TYPE = UNSIGNED_INTEGER
  SAMPLE_BITS = 8
  HEADER_TYPE = FITS
END_OBJECT = {name}
"""


def cards(sx, ix, k=1):
    """some cards to tell the header by: their order, values and comments"""
    v = sx.int(f"card{ix}", -2**31, 2**31)
    return [("HDUIX", ix, ""), ("VALUE", v, "a number"), ("TEXT", "abc", "some text"),
            ("EMPTY", None, "no value"), ("VALUE", v + 1, "")]


def listed(cards):
    out = []
    for k, v, c in cards:
        out.append((k, v))
        if c:
            out.append((k + "_comment", c))
    return out


def is_header(sx, got, cards):
    """got holds the cards, in order"""
    mine = {k for k, _ in listed(cards)}
    have = [(k, v) for k, v in got.items() if k in mine]
    want = listed(cards)
    return len(have) == len(want) and sx.and_(*[
        a[0] == b[0] and (b[1] is None) == (a[1] is None) and (b[1] is None or a[1] == b[1])
        for a, b in zip(have, want)])


class File:
    def __init__(self, sx, names, suf=".FITS", blocks=64, data=2**12, stub=None):
        self.sx, self.names = sx, names
        self.hdus, self.loc = [], []
        pos = 0
        for i, n in enumerate(names):
            h = sx.int(f"h{i}", 1, blocks)
            d = sx.int(f"d{i}", 0 if stub is None or i in stub else 1, data)
            cs = cards(sx, i)
            self.hdus.append((n, h, d, cs))
            self.loc.append((pos * 2880, (pos + h) * 2880, d * 2880))
            pos = pos + h + d
        self.path = sx.fits("F", self.hdus, suf)

    def check(self, got, name, ix, header):
        """got: the objects loaded for name"""
        sx = self.sx
        key = name if header else name + "_HEADER"
        if key not in got:
            return sx.fail("header of the HDU that was named")
        if not header:
            sx.check(name in got and sx.hdu_data(got[name], self.path, ix),
                     "data of the HDU that was named")
        sx.check(key in got and is_header(sx, got[key], self.hdus[ix][3]),
                 "header of the HDU that was named")


def pointed(sx, n, form, name, suf=".FITS"):
    """a PDS3 label that points to an HDU's header or data"""
    import pdr
    sx.const_hash()
    f = File(sx, ["PRIMARY"] + ["EXT%d" % i for i in range(1, n)], suf)
    ix = sx.choice("ix", list(range(n)))
    header = "HEADER" in name
    loc = f.loc[ix][0 if header else 1]
    if not header:
        sx.assume(f.loc[ix][2] > 0)
    at = loc // 2880 + 1 if form != "bytes" else loc + 1
    unit = {"record": "", "bytes": " <BYTES>", "records": " <RECORDS>"}[form]
    path = sx.text_file("F.LBL", LABEL.format(
        pointers=f'^{name} = ("F{suf}", {{at}}{unit})\n', objects=OBJECT.format(name=name)), at=at)
    out = sx.run(pdr.read, path)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    data._target_path(name)
    out = sx.run(data.load_from_pointer, name)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    f.check(out.value, name, ix, header)


def anywhere(sx, n, form, name):
    """a pointer that may point anywhere"""
    import pdr
    sx.const_hash()
    f = File(sx, ["PRIMARY"] + ["EXT%d" % i for i in range(1, n)])
    header = "HEADER" in name
    at = sx.int("at", 1, 2**30)
    unit = {"record": "", "bytes": " <BYTES>", "records": " <RECORDS>"}[form]
    path = sx.text_file("F.LBL", LABEL.format(
        pointers=f'^{name} = ("F.FITS", {{at}}{unit})\n', objects=OBJECT.format(name=name)), at=at)
    out = sx.run(pdr.read, path)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    data._target_path(name)
    out = sx.run(data.load_from_pointer, name)
    if out.raised(ValueError):
        # nothing there
        for i in range(n):
            h, d, size = f.loc[i]
            here = h if header else d
            sx.check(sx.or_(here != (at - 1) * (1 if form == "bytes" else 2880),
                            False if header else size == 0), "HDU that was named is found")
        return
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = out.value
    if (name if header else name + "_HEADER") not in got:
        sx.fail("header of an HDU")
        return
    for i in range(n):
        it = is_header(sx, got[name if header else name + "_HEADER"], f.hdus[i][3])
        here = f.loc[i][0 if header else 1]
        # records and bytes may also have been counted from 0, or mixed up
        sx.check(sx.implies(it, sx.or_(*[here == p for p in (
            at - 1, at, (at - 1) * 2880, at * 2880)])), "HDU at that place")


def primary(sx, names, suf=".FITS"):
    """the file opened without a label"""
    import pdr
    sx.const_hash()
    f = File(sx, names, suf)
    out = sx.run(pdr.read, f.path)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    called = [n if names.count(n) == 1 else f"{n}_{names[:i].count(n)}"
              for i, n in enumerate(names)]
    if not sx.check(sorted(data.index) == sorted(called), "objects of the file"):
        return
    for i in sx.choice("order", [list(range(len(names))), list(range(len(names)))[::-1]]):
        n = called[i]
        sx.check(is_header(sx, data.metadata[n], f.hdus[i][3]), "metadata of the HDU")
        out = sx.run(data.load, n)
        if not out.ok:
            sx.fail(f"unexpected exception {out.excname}")
            return
        got = {k: data.getattr(k) for k in (n, n + "_HEADER") if k in data.index}
        f.check(got, n, i, False)


def loaded(data):
    """all objects that were loaded"""
    return {k: data.getattr(k) for k in data.keys() if k not in data.unloaded()}


def pds4(sx, n, named, where="data"):
    """a PDS4 label that points to an HDU's header and data"""
    import pdr
    sx.const_hash()
    f = File(sx, ["PRIMARY"] + ["EXT%d" % i for i in range(1, n)], ".fits")
    ix = sx.choice("ix", list(range(n)))
    h, d, size = f.loc[ix]
    sx.assume(size > 0)
    hlen = d - h
    head = ("<Header>\n" + (NAME.format("HEAD X") if named else IDENT.format("HEAD"))
            + '<offset unit="byte">{h}</offset>\n<object_length unit="byte">{hlen}</object_length>\n'
            "<parsing_standard_id>FITS 3.0</parsing_standard_id>\n</Header>\n")
    arr = array("Array", IDENT.format("ARR"), "{d}", "UnsignedByte", [axis("A", "{size}", 1)])
    label = sx.text_file("F.xml", xml([("F.fits", [head, arr])]),
                         h=h, hlen=hlen, d=d, size=size)
    out = sx.run(pdr.read, label)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    hname = "HEAD_X" if named else "HEAD"
    sx.check(list(data.index) == [hname, "ARR", "label"], "objects of the product")
    for name in sx.choice("order", [[hname, "ARR"], ["ARR", hname]]):
        if name in data.unloaded():
            out = sx.run(data.load, name)
            if not out.ok:
                sx.fail(f"unexpected exception {out.excname}")
                return
    got = loaded(data)
    sx.check(sx.hdu_data(got["ARR"], f.path, ix), "data of the HDU that was named")
    sx.check(is_header(sx, got[hname], f.hdus[ix][3]), "header of the HDU that was named")
    if "ARR_HEADER" in got:
        sx.check(is_header(sx, got["ARR_HEADER"], f.hdus[ix][3]),
                 "header of the HDU that was named")


def pds4_all(sx, n, named):
    """a PDS4 label of every HDU's header and data"""
    import pdr
    sx.const_hash()
    f = File(sx, ["PRIMARY"] + ["EXT%d" % i for i in range(1, n)], ".fits")
    objs, numbers = [], {}
    for i in range(n):
        h, d, size = f.loc[i]
        sx.assume(size > 0)
        numbers |= {f"h{i}": h, f"l{i}": d - h, f"d{i}": d, f"s{i}": size}
        objs.append("<Header>\n" + (NAME if named else IDENT).format(f"HEAD{i}")
                    + f'<offset unit="byte">{{h{i}}}</offset>\n<object_length unit="byte">{{l{i}}}'
                    "</object_length>\n<parsing_standard_id>FITS 3.0</parsing_standard_id>\n</Header>\n")
        objs.append(array("Array", IDENT.format(f"ARR{i}"), f"{{d{i}}}", "UnsignedByte",
                          [axis("A", f"{{s{i}}}", 1)]))
    out = sx.run(pdr.read, sx.text_file("F.xml", xml([("F.fits", objs)]), **numbers))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    names = [k + str(i) for i in range(n) for k in ("HEAD", "ARR")]
    if not sx.check(list(data.index) == names + ["label"], "objects of the product"):
        return
    for name in sx.choice("order", [names, names[::-1], names[1::2], names[::2] + names[1::2]]):
        if name in data.unloaded():
            out = sx.run(data.load, name)
            if not out.ok:
                sx.fail(f"unexpected exception {out.excname}")
                return
        got = loaded(data)
        if name not in got:
            sx.fail("object that was loaded")
            return
        for k, v in got.items():
            if k == "label":
                continue
            i = int(k.removesuffix("_HEADER")[-1])
            if k.startswith("HEAD") or k.endswith("HEADER"):
                sx.check(is_header(sx, v, f.hdus[i][3]), "header of the HDU that was named")
            elif k.startswith("ARR"):
                sx.check(sx.hdu_data(v, f.path, i), "data of the HDU that was named")


F = ["handle_fits_file", "hdu_byte_index", "unpack_fits_headers", "handle_fits_header",
     "get_fits_start_byte", "_agnostic_fits_index", "Data._load_primary_fits",
     "Data._find_fits_header_pds4_id"]
S = ["astropy.io.fits.open -> list of HDUs with symbolic positions and card values"]


def H(nm, fn, bounds, **params):
    return Harness(nm, fn, F, bounds, S, params=params, budget=120)


B = "headers of 1..64 blocks, data of 0..4096 blocks"
HARNESSES = (
    [H(f"{form}_{name.lower()}_{n}", pointed, B, n=n, form=form, name=name)
     for form in ("record", "bytes", "records") for name in ("IMAGE", "HEADER", "X_HEADER", "TABLE")
     for n in (1, 2, 3, 4)]
    + [H(f"record_image_2{suf.lower()}", pointed, B, n=2, form="record", name="IMAGE", suf=suf)
       for suf in (".fits.gz", ".FIT", ".fits")]
    + [H(f"primary{suf.lower()}", primary, B, names=["PRIMARY", "SCI"], suf=suf)
       for suf in (".fits.gz", ".FIT", ".fits")]
    + [H(f"any_{form}_{name.lower()}_{n}", anywhere, B, n=n, form=form, name=name)
       for form in ("record", "bytes", "records") for name in ("IMAGE", "HEADER") for n in (1, 2, 3)]
    + [H(f"primary_{'_'.join(names).lower().replace(' ', '-')}", primary, B, names=names)
       for names in (["PRIMARY"], ["PRIMARY", "SCI"], ["PRIMARY", "SCI", "SCI"],
                     ["PRIMARY", "", ""], ["PRIMARY", "SCI", "ERR", "SCI"],
                     ["PRIMARY", "IMAGE HEADER", "B"], ["PRIMARY", "HEADER"],
                     ["PRIMARY", "X HEADER", "X HEADER"], ["PRIMARY", "A", "A", "B", "B", "A"])]
    + [H(f"pds4_{'named' if k else 'identified'}_{n}", pds4, B, n=n, named=k)
       for k in (False, True) for n in (1, 2, 3)]
    + [H(f"pds4_all_{'named' if k else 'identified'}_{n}", pds4_all, B, n=n, named=k)
       for k in (False, True) for n in (2, 3)]
)
