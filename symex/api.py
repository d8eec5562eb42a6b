"""Harness interface.  A harness is a function of one argument `sx`; the same
function runs symbolically (SymSx, rewritten pdr) and concretely (ConcSx,
pdr exactly as it is in /repo)."""
from __future__ import annotations

from dataclasses import dataclass, field
from fractions import Fraction


@dataclass
class Harness:
    name: str
    fn: object
    functions: list
    bounds: str
    stubs: list = field(default_factory=list)
    budget: float = 60.0           # quick
    budget_thorough: float = 300.0
    params: dict = field(default_factory=dict)
    params_thorough: dict = field(default_factory=dict)
    max_paths: int = 20000
    enum_cap: int = 64
    replay_cap: int = 60
    tiers: tuple = ("quick", "thorough")
    assumptions: list = field(default_factory=list)


class Outcome:
    """Result of running code that may raise."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    @property
    def excname(self):
        return None if self.exc is None else type(self.exc).__name__


class Assume(Exception):
    pass


class TooBig(Assume):
    """the input is too large to be replayed"""


def position_bytes(name, size):
    """deterministic bytes in which neighbouring positions differ"""
    import zlib
    import numpy as np
    rng = np.random.default_rng(zlib.crc32(name.encode()))
    return rng.integers(0, 256, int(size), dtype=np.uint8).tobytes()


def write_file(path, data):
    if path.lower().endswith(".gz"):
        import gzip
        opener = gzip.open
    elif path.lower().endswith(".bz2"):
        import bz2
        opener = bz2.open
    elif path.lower().endswith(".zip"):
        import zipfile
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("member", data)
        return
    else:
        opener = open
    with opener(path, "wb") as f:
        f.write(data)


class BaseSx:
    def run(self, fn, /, *a, **k):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return Outcome(fn(*a, **k))
            except Exception as ex:
                if self.symbolic:
                    import traceback
                    self.last_tb = "".join(traceback.format_tb(
                        ex.__traceback__)) + type(ex).__name__
                return Outcome(exc=ex)


PICTURE_TYPES = {"L": "u1", "RGB": "u1", "RGBA": "u1", "LA": "u1", "P": "u1",
                 "1": "bool", "I;16": "<u2", "I": "<i4", "F": "<f4"}


class ConcSx(BaseSx):
    symbolic = False

    def __init__(self, inputs, tier="quick", scratch=None):
        self.inputs_, self.tier = inputs, tier
        self.violations, self.n_checks = [], 0
        self.scratch = scratch

    def _get(self, name, default=None):
        if name not in self.inputs_:
            if self.inputs_.get("!partial"):
                return default
            raise KeyError(f"replay lacks input {name}")
        return self.inputs_[name]

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo or 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Assume()
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None):
        n, d = self._get(name, (lo or 0, 1))
        return float(Fraction(n, d))

    def choice(self, name, options):
        return options[int(self._get(name, 0))]

    def str(self, name, n, alphabet=None):
        return self._get(name, (alphabet or " ")[0] * n)

    def bytes(self, name, n, lo=0, hi=255):
        return bytes(self._get(name, [lo] * n))

    def zstr(self, name, maxlen=40):
        return self._get(name, "")

    def assume(self, cond):
        if not cond:
            raise Assume()

    def check(self, cond, label):
        self.n_checks += 1
        if not bool(cond):
            self.violations.append(label)
        return bool(cond)

    def fail(self, label):
        return self.check(False, label)

    def concrete(self, x):
        return x

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def eq(self, a, b):
        return a == b

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def const_hash(self, flag=True):
        pass

    def symbolic_keys(self):
        """MultiDicts may have symbolic keys"""

    def int_of(self, s, base=10):
        return int(s, base)

    def float_of(self, s):
        return float(s)

    def is_int(self, v):
        return isinstance(v, int) and not isinstance(v, bool)

    def is_float(self, v):
        return isinstance(v, float)

    def is_str(self, v):
        return isinstance(v, str)

    def same_set(self, v, items):
        return isinstance(v, (set, frozenset)) and v == set(items)

    def note(self, what):
        pass

    # files
    def file(self, name, size, suffix=".dat", content=None):
        """A file of the given size whose bytes depend on their position."""
        import os
        if size is not None and size > 50_000_000:
            raise TooBig()
        path = os.path.join(self.scratch, name + suffix)
        data = position_bytes(name, size) if content is None else content
        os.makedirs(os.path.dirname(path), exist_ok=True)
        write_file(path, data)
        self.files = getattr(self, "files", {})
        self.files[path] = data
        return path

    def directory(self, name, entries):
        """A directory of files (name, content): content is bytes, or the
        cells of a value_file."""
        import os
        import numpy as np
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        for fn, data in entries:
            if isinstance(data, list):
                data = b"".join(c if isinstance(c, bytes) else
                                np.array([c[1]]).astype(c[0]).tobytes() for c in data)
            write_file(os.path.join(d, fn), data)
        return d

    def path(self, d, name):
        import os
        return os.path.join(d, name)

    def pattern_file(self, name, segs, suffix=".dat"):
        """A file of runs (length, byte value) and literals (None, bytes)."""
        import os
        if sum(len(d) if n is None else int(n) for n, d in segs) > 50_000_000:
            raise TooBig()
        path = os.path.join(self.scratch, name + suffix)
        data = b"".join(d if n is None else bytes([d]) * int(n) for n, d in segs)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        write_file(path, data)
        self.files = getattr(self, "files", {})
        self.files[path] = data
        return path

    def value_file(self, name, cells, suffix=".dat"):
        """A file of literal bytes and of numbers [(dtype, value)]."""
        import os
        import numpy as np
        path = os.path.join(self.scratch, name + suffix)
        data = b"".join(c if isinstance(c, bytes) else
                        np.array([c[1]]).astype(c[0]).tobytes() for c in cells)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        write_file(path, data)
        self.files = getattr(self, "files", {})
        self.files[path] = data
        return path

    def elem(self, arr, *idx):
        """element of an array (whatever its mask says)"""
        import numpy as np
        v = np.ma.getdata(arr)[tuple(idx)]
        return v.item() if hasattr(v, "item") else v

    def masked(self, arr, *idx):
        import numpy as np
        return bool(np.ma.getmaskarray(arr)[tuple(idx)])

    def column(self, df, name):
        """a table's column as an array"""
        return df[name].to_numpy()

    def objects(self, df, name):
        """the list of a table column's values"""
        return list(df[name])

    def pixels(self, img):
        """the array of a Pillow image"""
        import numpy as np
        return np.asarray(img)

    def picture(self, fn, mode, shape, frames, palette=None, **options):
        """A picture file of frames, each the list of its samples (line by
        line, pixel by pixel).  palette: of colours; samples are indices."""
        import os
        import numpy as np
        from PIL import Image
        path = os.path.join(self.scratch, fn)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        images = []
        for f in frames:
            a = np.array(f, PICTURE_TYPES[mode]).reshape(shape)
            if mode == "P":
                im = Image.fromarray(a)
                im.putpalette([c for colour in palette for c in colour])
            else:
                im = Image.fromarray(a)
            assert im.mode == mode, im.mode
            images.append(im)
        if len(images) > 1:
            options.update(save_all=True, append_images=images[1:])
        images[0].save(path, **options)
        with Image.open(path) as im:
            if getattr(im, "n_frames", 1) != len(images):
                raise TooBig()
        return path

    def folder(self, name):
        """an empty folder for files that are written"""
        import os
        import tempfile
        d = tempfile.mkdtemp(prefix=name, dir=self.scratch)
        return os.path.realpath(d)

    def pictures(self, folder):
        """{file name: array} of the images written to a folder"""
        import os
        from PIL import Image
        return {n: self.pixels(Image.open(os.path.join(folder, n)))
                for n in sorted(os.listdir(folder))
                if os.path.splitext(n)[1].lower() in Image.registered_extensions()}

    def near(self, a, b, rel, abs_=0):
        """|a - b| <= rel * |b| + abs_"""
        if a != a or b != b or a in (float("inf"), float("-inf")):
            return a == b or (a != a and b != b)
        a, b = Fraction(a), Fraction(b)
        return abs(a - b) <= Fraction(rel) * abs(b) + Fraction(abs_)

    def text_range(self, text, path, lo, hi, start=0):
        """text is the file's bytes [start, start + n), with lo <= n <= hi"""
        data = text.encode("latin-1", "replace") if isinstance(text, str) else text
        n = len(data)
        return lo <= n <= hi and all(
            a == b for a, b in zip(data, self.files[path][start:]) if b < 128)

    def codes(self, s):
        """code points of a text"""
        return [ord(c) for c in s]

    def text_file(self, name, template, **values):
        """A text file with the given numbers formatted into it.  In symbolic
        runs the numbers are symbolic: they are represented in the text by
        unique tokens, for which the symbolic value is substituted when the
        code under test turns the text into a number."""
        import os
        path = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", newline="") as f:
            f.write(template.format(**values))
        return path

    def xml_file(self, name, root, namespaces=()):
        """An XML file of elements (name, text, children[, attributes]), with
        names a string or (prefix, string), and
        (prefix, uri) pairs declared by the root"""
        import os
        from xml.sax.saxutils import escape, quoteattr
        word = self.word

        def write(e, more=""):
            tag, text, children, *attrs = e
            head = word(tag) if not isinstance(tag, tuple) else f"{tag[0]}:{word(tag[1])}"
            more += "".join(f" {word(k)}={quoteattr(word(v))}" for k, v in (attrs or [()])[0])
            if text is None and not children:
                return f"<{head}{more}/>"
            return (f"<{head}{more}>" + escape(word(text) if text is not None else "")
                    + "".join(write(c) for c in children) + f"</{head}>")
        path = os.path.join(self.scratch, name)
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + write(root, "".join(
                f' xmlns{":" if p else ""}{p}="{u}"' for p, u in namespaces)) + "\n")
        return path

    def word(self, s):
        return s

    def fits(self, name, hdus, suffix=".FITS"):
        """A FITS file of HDUs (name, header blocks, data blocks, cards); the
        first is called PRIMARY, others may have no name ("")."""
        import os
        import warnings
        from astropy.io import fits
        if sum(h + d for _, h, d, _ in hdus) * 2880 > 50_000_000:
            raise TooBig()
        data = b""
        for ix, (nm, h, d, cards) in enumerate(hdus):
            first = [("XTENSION", "IMAGE   ", "") if ix else ("SIMPLE", True, ""),
                     ("BITPIX", 8, ""), ("NAXIS", int(d > 0), "")]
            if d:
                first.append(("NAXIS1", d * 2880, ""))
            first += [("PCOUNT", 0, ""), ("GCOUNT", 1, "")] if ix else [("EXTEND", True, "")]
            if ix and nm:
                first.append(("EXTNAME", nm, ""))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                text = "".join(str(fits.Card(*c)) for c in first + list(cards))
            while len(text) < (h - 1) * 2880:
                text += "COMMENT filler".ljust(80)
            text = (text + "END".ljust(80))
            text += " " * (h * 2880 - len(text))
            assert len(text) == h * 2880
            data += text.encode() + bytes([ix + 1]) * (2880 * d)
        path = os.path.join(self.scratch, name + suffix)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        write_file(path, data)
        self.hdus = getattr(self, "hdus", {})
        self.hdus[path] = hdus
        return path

    def hdu_data(self, got, path, ix):
        """got is the data of the file's HDU"""
        import numpy as np
        d = self.hdus[path][ix][2]
        return type(got) is np.ndarray and got.size == d * 2880 and bool(
            np.all(got == ix + 1))

    def forall(self, shape, fn, label, tag="ix"):
        """fn(*index) must hold for every index below shape"""
        import itertools
        n = 1
        for s in shape:
            n *= int(s)
        if n > 200_000:
            raise TooBig()
        for idx in itertools.product(*[range(int(s)) for s in shape]):
            self.n_checks += 1
            if not bool(fn(*idx)):
                self.violations.append(label)
                return False
        return True

    def decodes(self, arr, idx, path, offset, dtype, vax=False):
        """element arr[idx] is what the file holds at offset, read as dtype"""
        import numpy as np
        dt = np.dtype(dtype)
        if any(i >= n for i, n in zip(idx, arr.shape)):
            return False
        raw = self.files[path][int(offset): int(offset) + dt.itemsize]
        if len(raw) < dt.itemsize:
            return False
        want = np.frombuffer(raw, dtype="<u4" if vax else dt)
        if vax:
            import vax as V
            want = V.from_vax32(want)
        got = np.asarray(arr[tuple(idx)])
        if got.shape != ():
            return False
        w = np.ma.getdata(want)[0]
        g = got[()]
        if dt.kind in "SV":
            return bytes(g) == bytes(w)
        return bool(g == w) or (g != g and w != w)

    def cell(self, df, row, col, path, offset, dtype):
        """cell of a DataFrame is what the file holds at offset"""
        col = df[col].to_numpy()
        if row >= len(col):
            return False
        if dtype == "bool":
            raw = self.files[path][int(offset):int(offset) + 1]
            return bool(col[row]) == (raw != b"\0") and col.dtype == bool
        return self.decodes(col, (row,), path, offset,
                            "<f4" if dtype == "vax" else dtype, dtype == "vax")

    def scaled_cell(self, df, row, col, path, offset, dtype, scale, add):
        """cell is scale * (what the file holds at offset) + add"""
        import numpy as np
        dt = np.dtype(dtype)
        vals = df[col].to_numpy()
        if row >= len(vals):
            return False
        raw = self.files[path][int(offset): int(offset) + dt.itemsize]
        x = np.frombuffer(raw, dt)[0]
        x = int(x) if dt.kind in "iu" else float(x)
        with np.errstate(all="ignore"):
            want = float(x * scale + add)
            got = float(vals[row])
        if want != want or got != got:
            return want != want and got != got
        return bool(abs(want - got) <= 1e-9 * max(1.0, abs(want), abs(got)))\
            or want == got

    def shape(self, arr):
        return tuple(arr.shape)

    def contiguous(self, arr):
        return bool(arr.flags["C_CONTIGUOUS"])


class SymSx(BaseSx):
    symbolic = True

    def __init__(self, ex, tier="quick", scratch=None):
        self.ex, self.tier, self.scratch = ex, tier, scratch
        self.last_tb = None

    # inputs
    def int(self, name, lo=None, hi=None):
        import z3
        from . import core
        e = z3.Int(name)
        self.ex.inputs[name] = (_dec_int, e)
        if lo is not None:
            self.ex.add(e >= lo)
        if hi is not None:
            self.ex.add(e <= hi)
        if lo is None or lo <= 300:
            self.ex.small.append(e)
        if type(lo) is int and type(hi) is int:
            self.ex.bounds[e.get_id()] = (e, lo, hi)
        return core.SymInt(e)

    def bool(self, name):
        import z3
        from . import core
        e = z3.Bool(name)
        self.ex.inputs[name] = (_dec_bool, e)
        return core.SymBool(e)

    def real(self, name, lo=None, hi=None):
        import z3
        from . import core
        e = z3.Real(name)
        self.ex.inputs[name] = (_dec_real, e)
        if lo is not None:
            self.ex.add(e >= lo)
        if hi is not None:
            self.ex.add(e <= hi)
        return core.SymReal(e)

    def choice(self, name, options):
        """Symbolic selection among concrete options (one path per option)."""
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def str(self, name, n, alphabet=None):
        """Symbolic string of concrete length n."""
        import z3
        from . import strings
        cs = []
        for k in range(n):
            e = z3.Int(f"{name}!{k}")
            self.ex.small_domain(e, range(32, 127) if alphabet is None
                                 else set(map(ord, alphabet)))
            cs.append(e)
        self.ex.inputs[name] = (_dec_str, cs)
        return strings.SymStr(cs) if n else ""

    def bytes(self, name, n, lo=0, hi=255):
        import z3
        from . import strings
        cs = []
        for k in range(n):
            e = z3.Int(f"{name}!{k}")
            self.ex.small_domain(e, range(lo, hi + 1))
            cs.append(e)
        self.ex.inputs[name] = (_dec_bytes, cs)
        return strings.SymBytes(cs) if n else b""

    def zstr(self, name, maxlen=40):
        import z3
        from . import zstrings
        e = z3.String(name)
        self.ex.inputs[name] = (_dec_zstr, e)
        self.ex.add(z3.InRe(e, zstrings.ALPHABET_RE))
        self.ex.add(z3.Length(e) <= maxlen)
        return zstrings.ZStr(e)

    # logic
    def assume(self, cond):
        from . import core
        if type(cond) is core.SymBool:
            self.ex.assume(cond.e)
        else:
            self.ex.assume(bool(cond))

    def check(self, cond, label):
        from . import core
        c = cond.e if type(cond) is core.SymBool else bool(cond)
        return self.ex.prove(c, label)

    def fail(self, label):
        return self.ex.prove(False, label)

    def concrete(self, x):
        from . import ops
        return ops.deep_concrete(x)

    def _b(self, x):
        from . import core
        return core.zbool(x)

    def and_(self, *xs):
        import z3
        from . import core
        return core.mkbool(z3.simplify(z3.And(*[self._b(x) for x in xs])))

    def or_(self, *xs):
        import z3
        from . import core
        return core.mkbool(z3.simplify(z3.Or(*[self._b(x) for x in xs])))

    def not_(self, x):
        import z3
        from . import core
        return core.mkbool(z3.simplify(z3.Not(self._b(x))))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        import z3
        from . import core
        return core.mkbool(z3.simplify(self._b(a) == self._b(b)))

    def ite(self, c, a, b):
        import z3
        from . import core
        c = self._b(c)
        ia, ib = core.zint(a), core.zint(b)
        if ia is not None and ib is not None:
            return core.mkint(z3.simplify(z3.If(c, ia, ib)))
        ra, rb = core.zreal(a), core.zreal(b)
        return core.SymReal(z3.If(c, ra, rb))

    def eq(self, a, b):
        return a == b

    def min(self, a, b):
        return self.ite(a < b, a, b)

    def max(self, a, b):
        return self.ite(a > b, a, b)

    def const_hash(self, flag=True):
        self.ex.const_hash = flag

    def symbolic_keys(self):
        from . import mdict  # noqa: F401
        self.ex.state["symkeys"] = True
        self.ex.const_hash = True

    def int_of(self, s, base=10):
        from . import strings
        return strings.sym_int_of_str(s, base)

    def float_of(self, s):
        from . import strings
        return float(s) if isinstance(s, str) and type(s) is str else \
            strings.sym_float_of_str(s)

    def is_int(self, v):
        from . import core
        return type(v) in (int, core.SymInt)

    def is_float(self, v):
        from . import core
        return type(v) in (float, core.SymReal)

    def is_str(self, v):
        from . import strings
        return type(v) in (str, strings.SymStr)

    def same_set(self, v, items):
        if not isinstance(v, (set, frozenset)):
            return False
        items = list(items)
        vs = list(v)
        return self.and_(*[self.or_(*[x == y for y in vs]) for x in items],
                         *[self.or_(*[x == y for y in items]) for x in vs])

    def note(self, what):
        self.ex.note(what)

    def file(self, name, size, suffix=".dat", content=None):
        import os
        from . import streams
        f = streams.FileObj(name, size, content)
        path = os.path.join(self.scratch, name + suffix)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb"):
            pass
        return streams.add_file(path, f)

    def directory(self, name, entries):
        import os
        from . import dense, paths, streams
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        paths.dirs()[d] = [
            (fn, dense.ValFile(f"{name}{i}", data) if isinstance(data, list)
             else streams.FileObj(f"{name}{i}", None, data))
            for i, (fn, data) in enumerate(entries)]
        return d

    def path(self, d, name):
        from . import ops, paths
        return ops.to_str(paths.h_path(d, name))

    def pattern_file(self, name, segs, suffix=".dat"):
        import os
        from . import streams
        path = os.path.join(self.scratch, name + suffix)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb"):
            pass
        return streams.add_file(path, streams.PatFile(name, segs))

    def value_file(self, name, cells, suffix=".dat"):
        import os
        from . import dense, streams
        path = os.path.join(self.scratch, name + suffix)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb"):
            pass
        return streams.add_file(path, dense.ValFile(name, cells))

    def elem(self, arr, *idx):
        from . import core, dense
        d = dense.of(arr)
        if d is None:
            raise core.Limit(f"element of {type(arr).__name__}")
        if len(idx) != d.ndim:
            raise IndexError("wrong number of dimensions")
        return d.elems[int(d.ix[tuple(idx)])]

    def masked(self, arr, *idx):
        from . import core, dense
        d = dense.of(arr)
        if d is None:
            raise core.Limit(f"mask of {type(arr).__name__}")
        return False if d.mask_ is None else d.mask_[int(d.ix[tuple(idx)])]

    def column(self, df, name):
        from . import frames
        c = df[name]
        return c.values if type(c) is frames.SymCol else c.to_numpy()

    def objects(self, df, name):
        from . import frames
        c = df[name]
        return list(c.series() if type(c) is frames.SymCol else c)

    def pixels(self, img):
        from . import core, pictures
        if type(img) is pictures.Picture:
            return img.arr
        import numpy as np
        return np.asarray(img)

    folder = ConcSx.folder

    def picture(self, fn, mode, shape, frames, palette=None, **options):
        import math
        from . import core, dense, pictures
        n = math.prod(shape)
        dt = PICTURE_TYPES[mode]
        fill = [[bool((k + i) % 2) if mode == "1" else (k + i) % (3 if mode == "P" else 100)
                 for i in range(n)] for k in range(len(frames))]
        if options.get("quality"):
            fill = [[50 * k] * n for k in range(len(frames))]
        path = ConcSx.picture(self, fn, mode, shape, fill, palette, **options)
        arrs, indices = [], None
        for f in frames:
            d = dense.DenseArr(list(f), shape, dt)
            if mode == "P":
                indices = d if indices is None else indices
                d = dense.DenseArr([
                    pictures.lookup(v, [c[b] for c in palette]) for v in f for b in range(3)],
                    (*shape, 3), "u1")
            arrs.append(d)
        pictures.opens(path, arrs, indices)
        return path

    def pictures(self, folder):
        import os
        from . import core
        return {os.path.basename(k): v for k, v in
                sorted(core.CUR.state.get("pictures", {}).items())
                if os.path.dirname(k) == folder}

    def near(self, a, b, rel, abs_=0):
        import z3
        from . import core, dense
        if not core.is_sym(a) and not core.is_sym(b):
            return ConcSx.near(self, a, b, rel, abs_)
        if not dense.finite(a) or not dense.finite(b):
            return False
        a, b = core.zreal(a), core.zreal(b)
        d, m = z3.If(a >= b, a - b, b - a), z3.If(b >= 0, b, -b)
        q = lambda x: core.zreal(Fraction(x))
        return core.mkbool(z3.simplify(d <= q(rel) * m + q(abs_)))

    def codes(self, s):
        from . import core, ops
        return [core.SymInt(c) if not isinstance(c, int) else c for c in
                (s.cs if type(s) is not str else map(ord, s))]

    def text_range(self, text, path, lo, hi, start=0):
        from . import core, streams
        f = streams.vfs()[path]
        if type(text) is streams.TextSpan:
            sp = text.span
            if sp.file is not f:
                return False
            n = core.mkint(sp.length)
            return self.and_(core.mkbool(sp.start == core.zint(start)), lo <= n, n <= hi)
        return self.and_(lo <= len(text), len(text) <= hi)

    def text_file(self, name, template, **values):
        import os
        from . import core
        ph = self.ex.state.setdefault("placeholders", {})
        conc = {}
        for k, v in values.items():
            if core.is_sym(v):
                token = str(990000001 + len(ph))
                ph[token] = v
                conc[k] = token
            else:
                conc[k] = v
        path = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", newline="") as f:
            f.write(template.format(**conc))
        return path

    xml_file = ConcSx.xml_file

    def word(self, s):
        """stands for a symbolic string in a file"""
        from . import strings
        if type(s) is not strings.SymStr:
            return s
        ws = self.ex.state.setdefault("xml", {})
        k = next((k for k, v in ws.items() if v is s), f"W9{len(ws):04d}W")
        ws[k] = s
        return k

    def fits(self, name, hdus, suffix=".FITS"):
        import os
        from . import fits
        path = os.path.join(self.scratch, name + suffix)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb"):
            pass
        fits.add(path, hdus)
        return path

    def hdu_data(self, got, path, ix):
        import numpy as np
        from . import core, fits
        size = fits.files()[path][ix][5]
        if type(got) is np.ndarray and got.size == 0:
            return core.mkbool(size == 0)
        return type(got) is fits.Data and (got.path, got.ix) == (path, ix)

    def forall(self, shape, fn, label, tag="ix"):
        import z3
        from . import core
        self.ex.fresh += 1
        idx = []
        conds = []
        for k, s in enumerate(shape):
            e = z3.Int(f"{tag}!{self.ex.fresh}!{k}")
            s = core.zint(s)
            conds.append(z3.And(e >= 0, e < s))
            idx.append(core.SymInt(e))
        # index variables are universally quantified: forks inside fn are
        # taken under the range assumption
        if not self.ex.decide(z3.And(*[core.zint(s) > 0 for s in shape])):
            return True
        self.ex.add(z3.And(*conds))
        return self.check(fn(*idx), label)

    def decodes(self, arr, idx, path, offset, dtype, vax=False):
        import numpy as np
        import z3
        from . import arrays, core, dense, poly, rec, streams
        if type(arr) is dense.DenseArr:
            return rec.decodes(arr, idx, streams.vfs()[path], core.zint(offset),
                               np.dtype(dtype))
        if type(arr) is not arrays.SymArr:
            raise core.Limit(f"array of type {type(arr).__name__}")
        want = np.dtype(dtype)
        kind, isz, order, rest = arrays.decode_kind(arr)
        if len(idx) != arr.ndim:
            return False
        if arr.file is not streams.vfs()[path]:
            return False
        if vax:
            if rest != (("vax32",),):
                return False
        elif rest or (kind, isz) != (want.kind, want.itemsize):
            return False
        elif isz > 1 and kind not in "SV" and order != want.str[0]:
            return False
        got, exp = arr.offset_of(*idx), core.zint(offset)
        if poly.equal(got, exp):
            # normal forms agree: give the solver the difference to refute
            return core.SymBool(z3.simplify(got - exp, som=True) == 0)
        return core.mkbool(z3.simplify(got == exp))

    def cell(self, df, row, col, path, offset, dtype):
        from . import core, frames
        if type(df) is not frames.SymFrame:
            raise core.Limit(f"table of type {type(df).__name__}")
        c = df[col]
        if dtype == "bool":
            if c.ops_ != (("bool",),):
                return False
            return self.decodes(c.arr, (row,), path, offset, c.arr.dt)
        if c.ops_:
            return False
        return self.decodes(c.arr, (row,), path, offset,
                            "<f4" if dtype == "vax" else dtype, dtype == "vax")

    def scaled_cell(self, df, row, col, path, offset, dtype, scale, add):
        import numpy as np
        import z3
        from . import core, frames
        if type(df) is not frames.SymFrame:
            raise core.Limit(f"table of type {type(df).__name__}")
        c, dt = df[col], np.dtype(dtype)
        where = self.decodes(c.arr, (row,), path, offset, dtype)
        self.ex.fresh += 1
        isint = dt.kind in "iu"
        x = (z3.Int if isint else z3.Real)(f"cell!{self.ex.fresh}")
        conds = []
        cur = c.arr.dt
        if isint:
            info = np.iinfo(dt)
            conds += [x >= int(info.min), x <= int(info.max)]
            v = core.SymInt(x)
        else:
            v = core.SymReal(x)
        ok = []
        for op in c.ops_:
            if op[0] not in ("mul", "add"):
                raise core.Limit("column transform")
            v = v * op[1] if op[0] == "mul" else v + op[1]
            if type(v) is core.SymInt and cur.kind in "iu":
                # machine integers wrap
                info = np.iinfo(cur)
                ok.append(z3.And(v.e >= int(info.min), v.e <= int(info.max)))
        want = (core.SymInt(x) if isint else core.SymReal(x)) * scale + add
        good = z3.And(core.zreal(v) == core.zreal(want), *ok)
        return self.and_(where, core.mkbool(z3.Implies(z3.And(*conds), good)))

    def shape(self, arr):
        return arr.shape

    def contiguous(self, arr):
        return arr.flags["C_CONTIGUOUS"]


def _dec_int(m, e):
    return m.eval(e, model_completion=True).as_long()


def _dec_bool(m, e):
    import z3
    return z3.is_true(m.eval(e, model_completion=True))


def _dec_real(m, e):
    from . import core
    f = core.py_real(m.eval(e, model_completion=True))
    return [f.numerator, f.denominator]


def _dec_str(m, cs):
    return "".join(chr(_dec_int(m, c)) for c in cs)


def _dec_bytes(m, cs):
    return [_dec_int(m, c) for c in cs]


def _dec_zstr(m, e):
    from . import zstrings
    return zstrings.py_str(m.eval(e, model_completion=True))
