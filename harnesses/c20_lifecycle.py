"""C20: objects are listed, and each is loaded or fails by itself."""
import warnings

from symex.api import Harness

PROPERTY = "C20"
META = dict(
    title="Objects load one by one; one that cannot be read takes nothing with it",
    statement="A PDS3 product lists its LABEL and every object it has a pointer for, in the label's order, objects of the same name numbered (IMAGE_0, IMAGE_1), structures left out; whether or not they can be read, and whatever is loaded. An object is loaded when it is first asked for (data.load, data[name], data.name, data.load('all')), only that one, and then stays the same value: loading it again is refused without reload=True, and loading others, or all, leaves it alone; reload=True reads it again, also in place of what the user may have assigned to data.name. An object that can be read is its data, without a warning. One that cannot (its file is missing or too short for it, its sample type is unknown, LINES is missing, the label does not define it) gives a warning that names it and its metadata in place of data, no exception, and changes nothing about any other; data.load('all') still loads every other object (descriptions excepted). A name that the product has not is a KeyError in data.load and an AttributeError otherwise.",
    quantifier="all sequences of 2-3 operations on 3-4 objects, all dimensions, positions and file sizes",
    why="Archives have products with missing or damaged files; one bad object must not make the rest unreachable, nor go unnoticed. Which objects fail depends on file sizes, and what follows on the order of operations.",
    files=["pdr/pdr.py", "pdr/loaders/datawrap.py", "pdr/loaders/image.py", "pdr/parselabel/pds3.py"],
    mechanism=[("loading", "pdr/pdr.py:Data.load"), ("everything", "pdr/pdr.py:Data.load_all"),
               ("on demand", "pdr/pdr.py:Data.__getattribute__"),
               ("failures", "pdr/pdr.py:Data.load"),
               ("listing", "pdr/pdr.py:Data.keys")],
    note="Objects are 16-bit images in detached files, dimensions 1..4096, file sizes up to 2**40. Objects whose reader itself returns nothing (an unreadable HEADER, a PDF) are not covered.",
)
HEAD = """PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 10
FILE_RECORDS = 1
"""
IMAGE = """OBJECT = {name}
  LINES = {{{lines}}}
  LINE_SAMPLES = {{{samples}}}
  SAMPLE_TYPE = {stype}
  SAMPLE_BITS = 16
END_OBJECT = {name}
"""
TABLE = """OBJECT = {name}
  INTERCHANGE_FORMAT = BINARY
  ROWS = {{{lines}}}
  ROW_BYTES = 2
  COLUMNS = 1
  OBJECT = COLUMN
    NAME = A
    DATA_TYPE = MSB_INTEGER
    START_BYTE = 1
    BYTES = 2
  END_OBJECT = COLUMN
END_OBJECT = {name}
"""


class Mine:
    """what the user put in place of an object"""


class Objects:
    """a product of several objects, some of which cannot be read"""

    def __init__(self, sx, kinds, called=None):
        self.sx, self.kinds = sx, kinds
        called = called or ["B_IMAGE", "A_IMAGE", "C_IMAGE"]
        # objects of the same name are numbered, structures are not listed
        self.names = [c if called.count(c) == 1 else f"{c}_{called[:i].count(c)}"
                      for i, c in enumerate(called)]
        label, defs, vals = HEAD, "", {}
        self.good, self.path, self.dims, self.start = {}, {}, {}, {}
        for i, kind in enumerate(kinds):
            n, c = self.names[i], called[i]
            nl, ns = sx.int(f"nl{i}", 1, 2**12), sx.int(f"ns{i}", 1, 2**12)
            at = sx.int(f"at{i}", 1, 2**20)
            vals |= {f"nl{i}": nl, f"ns{i}": ns, f"at{i}": at}
            self.dims[n], self.start[n] = (nl, ns), at
            label += f'^{c} = ("F{i}.IMG", {{at{i}}} <BYTES>)\n'
            defs += IMAGE.format(name=c, lines=f"nl{i}", samples=f"ns{i}", stype={
                "type": "PEANUT"}.get(kind, "MSB_INTEGER"))
            if kind == "none":
                defs = defs[:defs.rindex("OBJECT = " + c + "\n  LINES")]
            if kind == "lines":
                defs = defs.replace(f"  LINES = {{nl{i}}}\n", "")
            if kind == "missing":
                self.good[n] = False
                continue
            size = sx.int(f"size{i}", 0, 2**40)
            need = at - 1 + nl * ns * 2
            if kind != "size":
                sx.assume(size >= need)
            self.path[n] = sx.file(f"F{i}", size, ".IMG")
            # decided where it matters
            self.good[n] = (size, need) if kind == "size" else kind == "ok"
        self.names = [n for n in self.names if "STRUCTURE" not in n]
        self.label = sx.text_file("F.LBL", label + defs + "END\n", **vals)

    def fine(self, n):
        g = self.good[n]
        if isinstance(g, tuple):
            g = self.good[n] = bool(g[0] >= g[1])
        return g

    def right(self, data, n, got):
        sx = self.sx
        if not self.fine(n):
            want = data.metaget_(n)
            return sx.check(got is want, "object that cannot be read: its metadata")
        if not hasattr(got, "shape"):
            return sx.fail("object that can be read: its data")
        sx.check(len(sx.shape(got)) == 2 and sx.and_(*[
            a == b for a, b in zip(sx.shape(got), self.dims[n])]), "shape")
        w = self.dims[n][1]
        sx.forall(sx.shape(got), lambda i, j: sx.decodes(
            got, (i, j), self.path[n], self.start[n] - 1 + (i * w + j) * 2, ">i2"),
            "data of the object")


def asked(sx, fn, *args, **kwargs):
    """(outcome, warnings)"""
    def ask():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                v, ex = fn(*args, **kwargs), None
            except (KeyError, AttributeError, FileNotFoundError) as e:
                v, ex = None, e
            except Exception as e:
                if type(e).__name__ != "AlreadyLoadedError":
                    raise
                v, ex = None, e
        return v, ex, [str(w.message) for w in ws if w.category is UserWarning]
    out = sx.run(ask)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return None
    return out.value


OPS = ["load0", "load1", "load2", "get0", "get1", "get2", "attr0", "attr1", "reload0",
       "reload1", "reload2", "set0", "all", "unknown"]


def history(sx, kinds, first, more, called=None, debug=False):
    """a sequence of operations on the objects of a product"""
    import pdr
    from dustgoggles.tracker import TrivialTracker
    p = Objects(sx, kinds, called)
    p.debug = debug
    out = sx.run(pdr.read, p.label, debug=debug, tracker=TrivialTracker())
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    data = out.value
    listed = ["LABEL"] + p.names
    sx.check(list(data.keys()) == listed and len(data) == len(listed)
             and all(n in data for n in listed) and "NOPE" not in data, "objects listed")
    values = {}
    for k in range(1 + len(more)):
        op = sx.choice(f"op{k}", first if not k else more[k - 1])
        before = dict(values)
        if not step(sx, p, data, op, values):
            return
        sx.check(list(data.keys()) == listed, "objects listed")
        sx.check([n for n in data.unloaded() if n != "LABEL"]
                 == [n for n in p.names if n not in values], "unloaded objects")
        for n, v in values.items():
            sx.check(data[n] is v, "value of a loaded object")
            sx.check(n not in before or v is before[n] or op.startswith(("reload", "set")),
                     "loaded objects are left alone")
            sx.check(not (op == "reload" + str(p.names.index(n)) and isinstance(v, Mine)),
                     "reloaded object")
            if (n not in before or v is not before[n]) and not isinstance(v, Mine):
                p.right(data, n, v)


def step(sx, p, data, op, values):
    """do op, note what has been loaded"""
    if op == "all":
        got = asked(sx, data.load, "all")
        if got is None:
            return False
        sx.check(got[1] is None, "load_all loads whatever it can")
        for n in p.names:
            if n not in values and "DESC" not in n:
                if n in data.unloaded():
                    sx.fail("load_all loads every object")
                    return False
                values[n] = data.getattr(n)
        return True
    if op == "unknown":
        for fn, a, exc in ((data.load, "NOPE", KeyError), (data.__getattribute__, "NOPE", AttributeError),
                           (data.__getitem__, "NOPE", AttributeError)):
            got = asked(sx, fn, a)
            if got is None:
                return False
            sx.check(isinstance(got[1], exc), "name of no object refused")
        return True
    n = p.names[int(op[-1])]
    had = n in values
    if op.startswith("set"):
        values[n] = Mine()
        setattr(data, n, values[n])
        return True
    if op.startswith("load"):
        got = asked(sx, data.load, n)
    elif op.startswith("reload"):
        got = asked(sx, data.load, n, reload=True)
    elif op.startswith("attr"):
        got = asked(sx, data.__getattribute__, n)
    else:
        got = asked(sx, data.__getitem__, n)
    if got is None:
        return False
    v, ex, warned = got
    if op.startswith("load") and had:
        sx.check(type(ex).__name__ == "AlreadyLoadedError", "object loaded twice")
        return True
    if ex is not None:
        sx.fail(f"unexpected exception {type(ex).__name__}")
        return False
    if had and not op.startswith("reload"):
        sx.check(v is values[n], "value of a loaded object")
        return True
    if n in data.unloaded():
        sx.fail("object loaded when asked for")
        return False
    values[n] = data.getattr(n)
    if op[0] in "ga":
        sx.check(v is values[n], "value of a loaded object")
    if p.fine(n):
        sx.check(warned == [], "object that can be read: no warning")
    else:
        sx.check(any(n in w for w in warned), "object that cannot be read: warning")
    return True


F = ["Data.load", "Data.load_all", "Data.__getattribute__", "Data.__getitem__",
     "Data.unloaded", "Data.keys", "Data._file_not_found", "Data.load_from_pointer"]
S = ["file contents opaque: only which bytes a pixel is decoded from"]


def H(nm, kinds, op, more, **params):
    return Harness(f"{nm}_{op}", history, F, f"{1 + len(more)} operations", S,
                   params=dict(kinds=kinds, first=[op], more=more, **params), budget=120)


FEW = ["load0", "get1", "attr1", "reload2", "all", "unknown", "set0"]
HARNESSES = (
    [H("size_missing_size", ("size", "missing", "size"), op, [OPS]) for op in OPS]
    + [H("type_size_none", ("type", "size", "none"), op, [OPS]) for op in OPS]
    + [H("reload", ("size", "ok", "missing"), "set0", [["reload0"], FEW])]
    + [H("lines_ok_size", ("lines", "ok", "size"), op, [FEW]) for op in FEW]
    + [H("three", ("size", "missing", "ok"), op, [FEW, OPS]) for op in FEW]
    + [H("twins", ("size", "size", "missing"), op, [FEW],
         called=["IMAGE", "IMAGE", "X_IMAGE"]) for op in FEW]
    + [H("triplets", ("size", "missing", "size"), op, [FEW],
         called=["IMAGE", "IMAGE", "IMAGE"]) for op in FEW]
    + [H("structure", ("ok", "missing", "size", "size"), op, [FEW],
         called=["A_IMAGE", "IMAGE_STRUCTURE", "C_IMAGE", "IMAGE"]) for op in FEW]
    + [H("desc", ("size", "missing", "size"), op, [FEW],
         called=["A_IMAGE", "INSTRUMENT_DESC", "C_IMAGE"]) for op in FEW]
)
