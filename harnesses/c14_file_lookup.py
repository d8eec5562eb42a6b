"""C14: which file on disk a name in a label stands for."""
from symex.api import Harness

PROPERTY = "C14"
META = dict(
    title="A file is found whatever the case of its name and whether it is compressed",
    statement="A file that the caller names, or that a label's pointer names, is the one of exactly this name if there is one; failing that, one whose name differs from it only in the case of letters, or (if the name has an extension) by a further extension .gz, .bz2 or .zip in any case. If there are several search paths (the directory of the label, then the ones the caller gave) the first that has such a file is used, and in it a file of exactly the name in preference to others. Format files that a label includes with ^STRUCTURE are looked for in the same way, and if no search path has one, then in the directories label and LABEL of the volume (beside the last directory called DATA, in any case, on the way to the data file). If a label describes a COMPRESSED_FILE and an UNCOMPRESSED_FILE with the objects in it, these are read from the latter's FILE_NAME if it exists in any search path, else from the former's. A file of any other name is never used instead: if there is no such file, opening raises FileNotFoundError, and a data object's file counts as missing. Opening a data file without naming its label finds the detached label in the same directory: the file of the same name but for its extension, which is .xml, .lbl or .lblx (preferred in this order) in any case, possibly compressed; or else there is none.",
    quantifier="all names of the listed shapes (lengths of stem and extensions) over letters, digits and underscores, all names of one to three other files in each of up to three directories",
    why="Which of the files in a directory is picked depends on how all their names relate to the wanted one; tests have one spelling and one candidate.",
    files=["pdr/utils.py", "pdr/pdr.py", "pdr/loaders/queries.py"],
    mechanism=[("lookup", "pdr/utils.py:check_cases"),
               ("names up to case and compression", "pdr/utils.py:stem_path"),
               ("search paths", "pdr/pdr.py:Data.get_absolute_paths"),
               ("format files", "pdr/loaders/queries.py:load_format_file"),
               ("compressed and uncompressed names", "pdr/pdr.py:Data._check_compressed_file_pointer"),
               ("label association", "pdr/utils.py:associate_label_file")],
    note="Names: stem of 1 to 3 characters and up to three extensions of 2 to 4 characters each, every character symbolic; files in up to three directories.",
    design="Symbolic directories (symex/paths.py): listings hold names made of symbolic characters. The oracle compares names character by character.",
)
WORD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
PACKED = (".gz", ".bz2", ".zip")


def file_name(sx, tag, shape, plain=False):
    """stem and extensions of the given lengths (plain: not the extension of
    a file in another format)"""
    out = sx.str(f"{tag}0", shape[0], WORD)
    for i, n in enumerate(shape[1:]):
        out = out + "."
        if plain and i == 0:
            out = out + sx.str(f"{tag}x", 1, "DIQRSdiqrs019")
            n -= 1
        elif plain and i == 1:
            out = out + sx.str(f"{tag}y", 1, "GBZgbz9") + sx.str(f"{tag}z", 1, "AZIaziq0")
            n -= 2
        out = out + sx.str(f"{tag}{i + 1}", n, WORD)
    return out


def same(sx, a, b):
    """equal up to case"""
    return a.lower() == b.lower() if len(a) == len(b) else False


def stands_for(sx, want, got):
    """may the file got be used for the name want?"""
    alts = [same(sx, want, got)]
    if "." in want:
        alts += [same(sx, want + x, got) for x in PACKED]
    return sx.or_(*alts)


def put(sx, shapes, text=None):
    """directories of files with symbolic, distinct names"""
    out = []
    for d, entries in enumerate(shapes):
        names = [file_name(sx, f"d{d}f{i}_", s, text is not None)
                 for i, s in enumerate(entries)]
        for i, a in enumerate(names):
            for b in names[:i]:
                sx.assume(a != b)
        path = sx.directory(f"dir{d}", [(n, text or b"%d%d" % (d, i))
                                        for i, n in enumerate(names)])
        out.append((path, names))
    return out


def judge(sx, got, want, dirs):
    """is got (None: nothing found) right?"""
    ok, before = [], []
    for path, names, *other in dirs:
        want, = other or [want]
        exact = sx.or_(False, *[n == want for n in names])
        for n in names:
            good = sx.or_(n == want, sx.and_(sx.not_(exact), stands_for(sx, want, n)))
            here = False if got is None else got == sx.path(path, n)
            ok.append(sx.and_(here, good, *before))
        before += [sx.not_(stands_for(sx, want, n)) for n in names]
    if got is None:
        sx.check(sx.and_(True, *before), "an available file is found")
    else:
        sx.check(sx.or_(False, *ok), "the file found is the one that was named")


def lookup(sx, want, shapes):
    from pdr.utils import check_cases
    want = file_name(sx, "want", want)
    dirs = put(sx, shapes)
    names = [sx.path(d, want) for d, _ in dirs]
    out = sx.run(check_cases, names if len(names) > 1 else names[0])
    if not out.ok and not out.raised(FileNotFoundError):
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = out.value if out.ok else None
    judge(sx, got if got is None or sx.symbolic else str(got), want, dirs)


LABEL = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 6
FILE_RECORDS = 1
^IMAGE = {pointer}
OBJECT = IMAGE
  LINES = 2
  LINE_SAMPLES = 3
  SAMPLE_TYPE = UNSIGNED_INTEGER
  SAMPLE_BITS = 8
END_OBJECT = IMAGE
END
"""
POINTERS = ['"{0}"', '("{0}", 1)', '("{0}", 1 <BYTES>)']


def content(d, i):
    return bytes([10 * d + i + k for k in range(6)])


def utf8(text):
    return text.encode("utf-8")


def product(sx, want, shapes, pointer, packed_label=False):
    """a label's pointer, through pdr.read"""
    import pdr
    want = file_name(sx, "want", want, True)
    head, tail = LABEL.replace("{pointer}", POINTERS[pointer]).split("{0}")
    label = ("X_LABEL_X.LBL", utf8(head + want + tail))
    dirs = []
    for d, entries in enumerate(shapes):
        names = [file_name(sx, f"d{d}f{i}_", s) for i, s in enumerate(entries)]
        for i, a in enumerate(names):
            for b in names[:i]:
                sx.assume(a != b)
        files = [(n, [content(d, i)]) for i, n in enumerate(names)]
        path = sx.directory(f"dir{d}", files + ([label] if d == 0 else []))
        dirs.append((path, names))
    out = sx.run(pdr.read, sx.path(dirs[0][0], label[0]),
                 search_paths=[d for d, _ in dirs[1:]])
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    out = sx.run(data.load, "IMAGE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = data.file_mapping.get("IMAGE")
    judge(sx, got if got is None or sx.symbolic else str(got), want, dirs)
    if got is None:
        sx.check(not hasattr(data.IMAGE, "shape"), "nothing is loaded")
        return
    im, ok = data.IMAGE, []
    if not hasattr(im, "shape"):
        sx.fail("the file's data are loaded")
        return
    for d, (path, names) in enumerate(dirs):
        for i, n in enumerate(names):
            data = list(content(d, i))
            ok.append(sx.and_(got == sx.path(path, n), im.shape == (2, 3), *[
                sx.elem(im, k // 3, k % 3) == data[k] for k in range(6)]))
    sx.check(sx.or_(False, *ok), "the file's data are loaded")


FORMATTED = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
FILE_RECORDS = 1
^TABLE = "T.DAT"
OBJECT = TABLE
  INTERCHANGE_FORMAT = BINARY
  ROWS = 1
  ROW_BYTES = 8
  ^STRUCTURE = "{0}"
END_OBJECT = TABLE
END
"""
COLUMN = """OBJECT = COLUMN
  NAME = F%d
  DATA_TYPE = MSB_UNSIGNED_INTEGER
  START_BYTE = %d
  BYTES = 1
END_OBJECT = COLUMN
"""


def format_file(sx, want, home, search, shapes):
    """the format file of a table: next to the label, in the search paths, or
    in the directory label or LABEL of the volume"""
    import pdr
    want = file_name(sx, "want", want)
    head, tail = FORMATTED.split("{0}")
    dirs, count = [], 0
    for d, (place, entries) in enumerate(shapes):
        names = [file_name(sx, f"d{d}f{i}_", s) for i, s in enumerate(entries)]
        for i, a in enumerate(names):
            for b in names[:i]:
                sx.assume(a != b)
            if place == home:
                for fixed in ("T.DAT", "X_LABEL_X.LBL"):
                    sx.assume(sx.not_(stands_for(sx, want, fixed)))
        files = [(n, utf8(COLUMN % (count + i, count + i + 1)))
                 for i, n in enumerate(names)]
        count += len(names)
        if place == home:
            files += [("X_LABEL_X.LBL", utf8(head + want + tail)),
                      ("T.DAT", [bytes(range(11, 19))])]
        dirs.append((sx.directory(place, files), names))
    places = dict(zip([p for p, _ in shapes], [d for d, _ in dirs]))
    out = sx.run(pdr.read, sx.path(places[home], "X_LABEL_X.LBL"),
                 search_paths=[places[p] for p in search])
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    out = sx.run(data.load, "TABLE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    table, got = data.TABLE, None
    if hasattr(table, "columns"):
        cols = [str(c) for c in table.columns]
        k = 0
        for path, names in dirs:
            for n in names:
                if cols == [f"F{k}"] and got is None:
                    got = sx.path(path, n)
                    sx.check(sx.and_(len(table) == 1, sx.elem(sx.column(table, f"F{k}"), 0) == 11 + k),
                             "the table has the columns of its format file")
                k += 1
        if got is None:
            sx.fail("the table has the columns of its format file")
            return
    judge(sx, got, want, dirs)


TWO = """PDS_VERSION_ID = PDS3
OBJECT = COMPRESSED_FILE
  FILE_NAME = "{0}"
  RECORD_TYPE = UNDEFINED
END_OBJECT = COMPRESSED_FILE
OBJECT = UNCOMPRESSED_FILE
  FILE_NAME = "{1}"
  RECORD_TYPE = FIXED_LENGTH
  RECORD_BYTES = 6
  FILE_RECORDS = 1
  ^IMAGE = "{2}"
  OBJECT = IMAGE
    LINES = 2
    LINE_SAMPLES = 3
    SAMPLE_TYPE = UNSIGNED_INTEGER
    SAMPLE_BITS = 8
  END_OBJECT = IMAGE
END_OBJECT = UNCOMPRESSED_FILE
END
"""


def two_names(sx, packed, plain, shapes):
    """a label that names both an uncompressed file and the compressed one"""
    import pdr
    packed = file_name(sx, "packed", packed, True)
    plain = file_name(sx, "plain", plain, True)
    label = TWO
    for i, text in enumerate((packed, plain, plain)):
        head, label = label.split("{%d}" % i)
        done = head + text if i == 0 else done + head + text
    label = ("X_LABEL_X.LBL", utf8(done + label))
    dirs = []
    for d, entries in enumerate(shapes):
        names = [file_name(sx, f"d{d}f{i}_", s) for i, s in enumerate(entries)]
        for i, a in enumerate(names):
            for b in names[:i]:
                sx.assume(a != b)
        files = [(n, [content(d, i)]) for i, n in enumerate(names)]
        path = sx.directory(f"dir{d}", files + ([label] if d == 0 else []))
        dirs.append((path, names))
    out = sx.run(pdr.read, sx.path(dirs[0][0], label[0]),
                 search_paths=[d for d, _ in dirs[1:]])
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    out = sx.run(data.load, "IMAGE")
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = data.file_mapping.get("IMAGE")
    judge(sx, got if got is None or sx.symbolic else str(got), None,
          [(*d, name) for name in (plain, packed) for d in dirs])
    if got is not None:
        im, ok = data.IMAGE, []
        if not hasattr(im, "shape"):
            sx.fail("the file's data are loaded")
            return
        for d, (path, names) in enumerate(dirs):
            for i, n in enumerate(names):
                want = list(content(d, i))
                ok.append(sx.and_(got == sx.path(path, n), im.shape == (2, 3), *[
                    sx.elem(im, k // 3, k % 3) == want[k] for k in range(6)]))
        sx.check(sx.or_(False, *ok), "the file's data are loaded")


def label_for(sx, data, shapes):
    """the detached label of a data file"""
    from pdr.utils import associate_label_file
    stem = sx.str("stem", data[0], WORD)
    ext = sx.str("ext0", 1, WORD[:52]) + sx.str("ext", data[1] - 1, WORD)
    for x in LABELS:
        sx.assume(sx.not_(same(sx, "." + ext, x)))
    fn = stem + "." + ext
    (path, names), = put(sx, [shapes])
    # this file is there too, as are files of other names
    out = sx.run(associate_label_file, sx.path(path, fn))
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    got = out.value
    before = []
    ok = [got is None]
    for x in LABELS:
        want = stem + x
        here = []
        exact = sx.or_(False, *[n == want for n in names])
        for n in names:
            good = sx.or_(n == want, sx.and_(sx.not_(exact), stands_for(sx, want, n)))
            if got is not None:
                here.append(sx.and_(got == sx.path(path, n), good, *before))
        ok += here
        before += [sx.not_(stands_for(sx, want, n)) for n in names]
    if got is None:
        sx.check(sx.and_(True, *before), "an available label is found")
    else:
        sx.check(sx.or_(*ok[1:]), "the label found is that of the file")


LABELS = (".xml", ".lbl", ".lblx")


def opened(sx, want, shapes):
    """the file given to pdr.read is looked up in the same way"""
    import pdr
    want = file_name(sx, "want", want, True)
    dirs = put(sx, [shapes], utf8(LABEL.replace("{pointer}", "1")))
    out = sx.run(pdr.read, sx.path(dirs[0][0], want), label_fn=None)
    got = None
    if out.ok:
        got = out.value.filename
    elif not out.raised(FileNotFoundError):
        sx.fail(f"unexpected exception {out.excname}")
        return
    judge(sx, got if got is None or sx.symbolic else str(got), want, dirs)


def H(name, fn, budget=60, **params):
    return Harness(name, fn, F, B, "all characters of all names", params=params,
                   budget=budget)


F = "pdr.utils: check_cases, stem_path, associate_label_file, find_repository_root; pdr.pdr: Data (construction, load, _target_path, get_absolute_paths); pdr.loaders.queries: load_format_file, inject_format_files"
B = "see the harness parameters: lengths of the name's parts, and of those of the files in each directory"
HARNESSES = [
    H("one", lookup, want=(3, 3), shapes=[[(3, 3)]]),
    H("no_extension", lookup, want=(3,), shapes=[[(3,), (3, 2)]]),
    H("packed2", lookup, want=(2, 3), shapes=[[(2, 3, 2), (2, 3)]]),
    H("packed3", lookup, want=(2, 3), shapes=[[(2, 3, 3), (2, 3, 3)]]),
    H("asked_packed", lookup, want=(2, 3, 2), shapes=[[(2, 3, 2), (2, 3)]]),
    H("asked_packed3", lookup, want=(2, 3, 3), shapes=[[(2, 3, 3), (2, 3, 2)]]),
    H("asked_packed_twice", lookup, want=(2, 3, 2), shapes=[[(2, 3, 2, 2), (2, 3)]]),
    H("dotted", lookup, want=(1, 2, 3), shapes=[[(1, 2, 3), (1, 2, 3, 2)]]),
    H("three", lookup, want=(2, 3), shapes=[[(2, 3), (2, 3, 2), (2, 3)]]),
    H("dirs2", lookup, want=(2, 3), shapes=[[(2, 3)], [(2, 3), (2, 3, 2)]]),
    H("dirs3", lookup, want=(2, 3), shapes=[[(2, 3, 2)], [(2, 3)], [(2, 3, 3)]]),
    H("long", lookup, want=(8, 3), shapes=[[(8, 3), (8, 4)], [(8, 3, 2)]]),
    H("product", product, want=(2, 3), shapes=[[(2, 3), (2, 3)]], pointer=0),
    H("product_record", product, want=(2, 3), shapes=[[(2, 3)], [(2, 3), (2, 3)]],
      pointer=1),
    H("product_packed", product, want=(2, 3), shapes=[[(2, 3, 2)], [(2, 3, 3)]],
      pointer=2),
    H("product_asked_packed", product, want=(2, 3, 2), shapes=[[(2, 3, 2)]], pointer=0),
    H("opened", opened, want=(2, 3), shapes=[(2, 3), (2, 3)]),
    H("opened_packed", opened, want=(2, 3), shapes=[(2, 3, 2), (2, 3, 3)]),
    H("format_here", format_file, want=(2, 3), home="a", search=[],
      shapes=[("a", [(2, 3), (2, 3)])]),
    H("format_search", format_file, want=(2, 3), home="a", search=["b"],
      shapes=[("a", [(2, 3)]), ("b", [(2, 3)])]),
    H("format_volume", format_file, want=(2, 3), home="v/DATA/s", search=[],
      shapes=[("v/DATA/s", [(2, 3)]), ("v/LABEL", [(2, 3)])]),
    H("format_volume_lower", format_file, want=(2, 3), home="v/data/s/t", search=[],
      shapes=[("v/data/s/t", []), ("v/label", [(2, 3), (2, 3)])]),
    H("format_volume_two", format_file, want=(2, 3), home="v/Data/w/DATA/s", search=["b"],
      shapes=[("v/Data/w/DATA/s", []), ("b", [(2, 3)]), ("v/Data/w/LABEL", [(2, 3)])]),
    H("format_all", format_file, want=(2, 3), home="v/Data/s", search=["b"],
      shapes=[("v/Data/s", [(2, 3)]), ("b", [(2, 3, 2)]), ("v/LABEL", [(2, 3)])]),
    H("format_both", format_file, want=(2, 3), home="v/Data/s", search=[],
      shapes=[("v/Data/s", []), ("v/label", [(2, 3)]), ("v/LABEL", [(2, 3)])]),
    H("format_none", format_file, want=(2, 3), home="v/dat/s", search=[],
      shapes=[("v/dat/s", [(2, 3, 3)]), ]),
    H("two_names", two_names, packed=(2, 3), plain=(2, 3), shapes=[[(2, 3), (2, 3)]]),
    H("two_names_dirs", two_names, packed=(2, 3), plain=(2, 3), shapes=[[(2, 3)], [(2, 3)]]),
    H("label1", label_for, data=(2, 3), shapes=[(2, 3)]),
    H("label2", label_for, data=(2, 3), shapes=[(2, 3), (2, 4)]),
    H("label3", label_for, data=(2, 3), shapes=[(2, 3), (2, 3), (2, 3)]),
    H("label_packed", label_for, data=(2, 2), shapes=[(2, 3, 2), (2, 4, 3)]),
]
