"""C19: an object is read by the loader its name and its file call for."""
from harnesses.c16_special_cases import KINDS, ROWS, right
from symex.api import Harness

SYMBOLIC_KEYS = True
PROPERTY = "C19"
META = dict(
    title="An object is read the way its name and the type of its file call for",
    statement="In products that no mission's special case applies to, a PDS3 object is read by the reader for the class word of its name, whatever modifier stands before or after it (X_IMAGE, SUBIMAGE, IMAGE_X, CONTEXT_IMAGE, DESCENT_IMAGE) and whatever number after it (IMAGE_12): IMAGE, QUBE and QUB as images; TABLE, SPREADSHEET, CONTAINER, SERIES, SPECTRUM, HISTOGRAM and FILE as tables, also when IMAGE_ is in front of them; HEADER as a header, also of any of those (TABLE_HEADER, IMAGE_HEADER); ARRAY as an array; TEXT, DESC and DESCRIPTION as text; STRUCTURE, PDS_OBJECT and TIFF not at all; any other name is not supported. An object in a FITS file (.fits, .fit, .fz, also .gz, in any case of letters) is read as FITS and one in a desktop image file (.jpg, .png, .tif, .gif, .bmp, .jp2 ...) as a desktop image, whatever it is called; other names of files make no difference, except to X_FILE_NAME objects, whose reader is that for the extension of the file. What is read (IMAGE, QUBE, TABLE, SERIES, SPECTRUM, SPREADSHEET, HEADER) is as the label describes it, whatever the modifier.",
    quantifier="all modifiers, numbers and file names of the given lengths",
    why="The reader is found by substrings of names, in an order that matters; one condition too wide or in the wrong place makes objects with unforeseen names unreadable or misread.",
    files=["pdr/loaders/dispatch.py", "pdr/loaders/utility.py", "pdr/formats/checkers.py", "pdr/loaders/datawrap.py", "pdr/pdr.py"],
    mechanism=[("which reader", "pdr/loaders/dispatch.py:pointer_to_loader"),
               ("desktop images and FITS", "pdr/loaders/dispatch.py:image_lib_dispatch"),
               ("file extensions", "pdr/loaders/dispatch.py:file_extension_to_loader"),
               ("extensions of a kind", "pdr/loaders/utility.py:looks_like_this_kind_of_file"),
               ("objects not read", "pdr/loaders/utility.py:is_trivial")],
    note="Modifiers of 1-11 characters (letters, digits, _) that contain no class word and none of PDF, NAME, DOCUMENT, CATALOG, LABEL, ASCII, PREFIX, SUFFIX; numbers of 1-2 digits; stems of file names of 1 or 8 characters. PROFILE_IMAGE (which contains FILE) and images whose modifier is itself the name of a table class other than HISTOGRAM are not covered.",
)
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
# the class of an object is a word of its name
TABLES = ("TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM", "HISTOGRAM", "FILE")
CLASSES = (
    {w: "ReadTable" for w in TABLES}
    | {"IMAGE": "ReadImage", "QUBE": "ReadImage", "QUB": "ReadImage",
       "HEADER": "ReadHeader", "ARRAY": "ReadArray", "TEXT": "ReadText",
       "DESC": "ReadText", "DESCRIPTION": "ReadText", "STRUCTURE": "Trivial",
       "PDS_OBJECT": "Trivial", "TIFF": "Trivial"}
)
# names of several such words
PAIRS = (
    {f"IMAGE_{w}": "ReadTable" for w in TABLES}
    | {f"{w}_HEADER": "ReadHeader" for w in TABLES + ("IMAGE", "QUBE")}
    | {"HISTOGRAM_IMAGE": "ReadImage", "TIFF_IMAGE": "ReadImage", "TIFF_HEADER": "Trivial",
       "TIFF_DOCUMENT": "TBD", "XDR_DOCUMENT": "ReadImage", "TABLE_STRUCTURE": "Trivial",
       "IMAGE_ARRAY": "ReadArray", "HISTOGRAM_ARRAY": "ReadArray",
       "MAP_PROJECTION_CATALOG": "ReadText", "IMAGE_DESC": "ReadText", "TABLE_TEXT": "ReadText",
       "TABLE_DESCRIPTION": "ReadText", "CONTEXT_IMAGE": "ReadImage",
       "CONTEXT_TABLE": "ReadTable", "DESCENT_IMAGE": "ReadImage",
       "DESCENDING_TABLE": "ReadTable", "CONTEXT_HEADER": "ReadHeader"}
)
# parts of words that say something about a class
PARTS = ("TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM", "HISTOGRAM", "FILE",
         "IMAGE", "QUB", "HEADER", "ARRAY", "TEXT", "DESC", "STRUCTURE", "PDS_OBJECT",
         "TIFF", "PDF", "NAME", "DOCUMENT", "CATALOG", "LABEL",
         "ASCII", "PREFIX", "SUFFIX")
LABEL = b"""PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 10
PRODUCT_ID = "X1"
END
"""
FITS = (".fits", ".fit", ".fz", ".fits.gz", ".fit.gz")
DESKTOP = (".bmp", ".tif", ".tiff", ".jp2", ".jpf", ".jpc", ".jpx", ".gif", ".jpg", ".jpeg",
           ".png", ".webp")
PLAIN = (".dat", ".img", ".tab", ".csv", ".txt", ".lbl", ".qub", ".gz", ".bz2", "", ".fi",
         ".ff", ".tiffs", ".jp", ".jpeg2", ".gi")



def free(sx, text):
    """a modifier that says nothing about the class"""
    for p in PARTS:
        for i in range(len(text) - len(p) + 1):
            sx.assume(text[i:i + len(p)] != p)
    return text


def modifier(sx, n):
    if n == 0:
        return ""
    text = sx.str("first", 1, UP)
    if n > 2:
        text = text + sx.str("mid", n - 2, UP + "_0123456789")
    if n > 1:
        text = text + sx.str("last", 1, UP + "0123456789")
    return free(sx, text)


def numbered(sx, n):
    return "" if not n else "_" + sx.str("number", n, "0123456789")


def loader(sx, name, fn):
    """the loader for the object called name in the file called fn"""
    import pdr
    from pdr.loaders.dispatch import pointer_to_loader
    d = sx.directory("dir", [("A.LBL", LABEL)])
    out = sx.run(pdr.read, sx.path(d, "A.LBL"))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None
    data = out.value
    data.file_mapping[name] = sx.path(d, fn)
    out = sx.run(pointer_to_loader, name, data)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None
    return type(out.value).__name__


def by_name(sx, cls, want, n, digits=0, order="before"):
    sx.symbolic_keys()
    mod = modifier(sx, n)
    if order == "before":
        name = mod + ("_" if n and cls else "") + cls + numbered(sx, digits)
    elif order == "after":
        name = cls + "_" + mod
    else:
        # no word across the two, nor PROFILE, nor CONTEXT
        name = mod + cls
        for p in PARTS + ("CON" + cls, "PRO" + cls):
            for i in range(len(name) - len(p) + 1):
                if i < n < i + len(p):
                    sx.assume(name[i:i + len(p)] != p)
    got = loader(sx, name, "A.DAT")
    if got is not None:
        sx.check(got == want, "loader for a name of this class")


def cased(sx, text):
    out = ""
    for i, c in enumerate(text):
        out = out + (sx.str(f"e{i}", 1, c + c.upper()) if c.isalpha() else c)
    return out


def by_file(sx, cls, want, exts, n):
    sx.symbolic_keys()
    ext = sx.choice("ext", exts)
    stem = sx.str("stem", n, UP + UP.lower() + "0123456789_-") if n else "A"
    got = loader(sx, cls, stem + cased(sx, ext))
    if got is not None:
        sx.check(got == want, "loader for a file of this type")


def loaded(sx, cls, n, digits=0):
    """through pdr.read and load_from_pointer, with data"""
    import pdr
    sx.symbolic_keys()
    mod = modifier(sx, n)
    name = mod + ("_" if n else "") + cls + numbered(sx, digits)
    kind = {"SPREADSHEET": "SPREADSHEET", "SERIES": "TIME_SERIES", "SPECTRUM": "SPECTRUM",
            "TABLE": "TABLE"}.get(cls, cls)
    definition, raw, want = KINDS[kind]
    definition = definition.format(name=kind, last="Y")
    lines = definition.split("\n")
    body = "\n".join(lines[1:-2])
    label = "PDS_VERSION_ID = PDS3\nRECORD_TYPE = FIXED_LENGTH\nRECORD_BYTES = 10\n^" \
        + name + ' = ("X.DAT", 2)\nOBJECT = ' + name + "\n" + body + "\nEND_OBJECT = " \
        + name + "\nEND\n"
    data = bytes(range(100, 110)) + raw + bytes(range(110, 150))
    d = sx.directory("dir", [("A.LBL", label.encode("utf-8")),
                             ("X.DAT", [data] if raw is not ROWS else data)])
    out = sx.run(pdr.read, sx.path(d, "A.LBL"))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    objects = [k for k in data.index if not bool(k == "LABEL")]
    sx.check(len(objects) == 1 and objects[0] == name, "objects of the product")
    data.file_mapping[name] = data._target_path(name)
    out = sx.run(data.load_from_pointer, name)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = list(out.value.values())[0]
    ok = hasattr(got, "columns") if isinstance(want, dict) else \
        isinstance(got, str) if isinstance(want, str) else hasattr(got, "shape")
    sx.check(ok and right(sx, kind, got, want), "data as the label describes them")


F = ["pdr.loaders.dispatch.pointer_to_loader", "image_lib_dispatch", "is_trivial",
     "check_trivial_case", "special_pointer_dispatch", "looks_like_this_kind_of_file"]
S = []


def H(nm, fn, bounds, **params):
    return Harness(nm, fn, F, bounds, S, params=params, budget=120)


LENGTHS = (0, 2, 6, 11)
HARNESSES = (
    [H(f"read_{c.lower()}_{n}", loaded, f"modifier of {n} characters", cls=c, n=n)
     for c in ("IMAGE", "QUBE", "TABLE", "SERIES", "SPECTRUM", "SPREADSHEET", "HEADER")
     for n in (1, 4, 7, 11)]
    + [H(f"{c.lower()}_{n}", by_name, f"modifier of {n} characters", cls=c, want=w, n=n)
     for c, w in CLASSES.items() for n in LENGTHS]
    + [H(f"{c.lower()}_{n}_n{k}", by_name, f"modifier of {n} characters", cls=c, want=w, n=n, digits=k)
     for c, w in CLASSES.items() for n in (0, 4) for k in (1, 2)]
    + [H(f"{c.lower()}_{n}", by_name, f"modifier of {n} characters", cls=c, want=w, n=n)
     for c, w in PAIRS.items() for n in (0, 3, 8)]
    + [H(f"{c.lower()}_{n}_n{k}", by_name, f"modifier of {n} characters", cls=c, want=w, n=n, digits=k)
     for c, w in PAIRS.items() for n, k in ((0, 1), (4, 2))]
    + [H(f"{c.lower()}_{o}_{n}", by_name, f"modifier of {n} characters", cls=c, want=w, n=n, order=o)
     for c, w in (CLASSES | PAIRS).items() for o, n in (("after", 4), ("joined", 4))]
    + [H(f"other_{n}", by_name, f"name of {n} characters", cls="", want="TBD", n=n)
     for n in (1, 4, 9, 14)]
    + [H(f"fits_{c.lower()}_{n}", by_file, f"file name of {n} characters and extension", cls=c,
         want="ReadFits", exts=FITS, n=n) for c in ("IMAGE", "TABLE", "HEADER", "X_ARRAY", "X") for n in (1, 8)]
    + [H(f"file_name_{n}_{w.lower()}", by_file, f"file name of {n} characters and extension",
         cls=c, want=w, exts=e, n=n)
       for w, e in (("ReadImage", (".img", ".rgb")), ("ReadTable", (".tab", ".csv")),
                    ("ReadText", (".txt", ".md")), ("ReadFits", FITS),
                    ("ReadCompressedImage", DESKTOP), ("TBD", (".dat", "", ".tabs", ".im")))
       for c, n in (("FILE_NAME", 1), ("X_FILE_NAME", 8))]
    + [H(f"desktop_{c.lower()}_{n}", by_file, f"file name of {n} characters and extension", cls=c,
         want="ReadCompressedImage", exts=DESKTOP, n=n)
       for c in ("IMAGE", "TABLE", "X_DOCUMENT", "HEADER") for n in (1, 8)]
    + [H(f"plain_{c.lower()}_{n}", by_file, f"file name of {n} characters and extension", cls=c,
         want=w, exts=PLAIN, n=n)
       for c, w in (("IMAGE", "ReadImage"), ("TABLE", "ReadTable"), ("HEADER", "ReadHeader"),
                    ("X_ARRAY", "ReadArray"), ("X", "TBD")) for n in (1, 8)]
)
