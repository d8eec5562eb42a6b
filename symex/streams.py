"""
Virtual files for the symbolic runs.

FileObj      a file of symbolic size whose bytes are opaque (identified only
             by their offset), or whose bytes are given (SymBytes/bytes)
SymSpan      a run of bytes of such a file: [start, start+length)
SymStream    an open file / BytesIO / GzipFile over a FileObj or SymSpan
"""
from __future__ import annotations

import builtins
import codecs
import bz2
import gzip
import io
import os
import zipfile

import z3

from . import core, ops, strings
from .core import Sym, SymInt, mkint, isinstance_real, zint


def simp(e):
    return z3.simplify(e) if isinstance_real(e, z3.ExprRef) else z3.IntVal(e)


def zmin(a, b):
    """min by forking (keeps terms polynomial)"""
    return a if core.CUR.decide(a <= b) else b


class FileObj:
    packed = None     # kind of stream that unpacks it

    def __init__(self, name, size=None, content=None):
        self.name = name
        self.content = content          # None: opaque
        self.size = z3.IntVal(len(content)) if content is not None else zint(size)


class SymSpan(Sym):
    """immutable run of opaque file bytes"""
    __slots__ = ("file", "start", "length")

    def __init__(self, file, start, length):
        self.file, self.start, self.length = file, simp(start), simp(length)

    @property
    def __class__(self):
        return bytes

    def len_(self):
        return mkint(self.length)

    def __len__(self):
        return int(self.len_())

    def __bool__(self):
        return core.CUR.decide(self.length > 0)

    @property
    def nbytes(self):
        return self.len_()

    def tobytes(self):
        return self

    def __getitem__(self, k):
        if isinstance_real(k, slice):
            if k.step not in (None, 1):
                raise core.Limit("stepped span slice")
            a, b = slice_bounds(k.start, k.stop, self.length)
            return SymSpan(self.file, self.start + a, b - a)
        raise core.Limit("byte of opaque file")

    def __add__(self, o):
        if isinstance_real(o, (bytes, bytearray)) and len(o) == 0:
            return self
        if type(o) is SymSpan and o.file is self.file and core.CUR.decide(
            self.start + self.length == o.start
        ):
            return SymSpan(self.file, self.start, self.length + o.length)
        raise core.Limit("concatenation of unrelated spans")

    def __radd__(self, o):
        if isinstance_real(o, (bytes, bytearray)) and len(o) == 0:
            return self
        return NotImplemented

    def __eq__(self, o):
        if type(o) is SymSpan and o.file is self.file:
            return core.mkbool(z3.simplify(z3.And(
                self.start == o.start, self.length == o.length)))
        if isinstance_real(o, bytes) and len(o) == 0:
            return core.mkbool(z3.simplify(self.length == 0))
        raise core.Limit("comparison of opaque bytes")

    def __hash__(self):
        return 3

    def join(self, items):
        raise core.Limit()

    def decode(self, encoding="utf-8", errors="strict"):
        if isinstance_real(self.file, PatFile):
            w = self._window()
            if errors == "strict" and codecs.lookup(encoding).name != "iso8859-1":
                bad = [b for _, b, _, _ in w.items if b >= 128]
                if bad:
                    raise UnicodeDecodeError(encoding, bytes(bad), 0, 1, "invalid start byte")
            if not any(f for f, _, _, _ in w.items):
                return w.data.decode(encoding, errors)
        return TextSpan(self)

    # content of files made of runs and literals
    def _window(self):
        if not isinstance_real(self.file, PatFile):
            raise core.Limit("content of an opaque file")
        return Window(self)

    def re_(self, mode, pattern, flags=0):
        import re as _re
        w = self._window()
        return w.match(getattr(_re.compile(pattern, flags), mode)(w.data))

    def find(self, sub, *a):
        if a:
            raise core.Limit("find with bounds")
        w = self._window()
        return w.offset(w.data.find(sub))

    def rfind(self, sub, *a):
        if a:
            raise core.Limit("rfind with bounds")
        w = self._window()
        return w.offset(w.data.rfind(sub))

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if isinstance_real(k, int) and not isinstance_real(k, Sym) and k < 0:
            raise ValueError("subsection not found")
        return k

    def contains_(self, sub):
        return sub in self._window().data

    __contains__ = contains_

    def startswith(self, sub, *a):
        return self[:len(sub)]._window().data.startswith(sub, *a)

    def endswith(self, sub, *a):
        return self[-len(sub):]._window().data.endswith(sub, *a)


class PatFile(FileObj):
    """a file made of runs of one byte (symbolic length) and literal bytes:
    segments [(length or None, byte value or bytes)]"""

    def __init__(self, name, segs):
        self.name, self.content = name, None
        self.segs, pos = [], z3.IntVal(0)
        for n, data in segs:
            n = zint(len(data) if n is None else n)
            self.segs.append((pos, n, data))
            pos = simp(pos + n)
        self.size = pos


class Window:
    """the visible content of a span of a PatFile.  A run of equal bytes is
    represented by one of them (searches whose match would touch a run are
    refused)"""

    def __init__(self, span):
        self.span = span
        self.items = []         # (is a run, byte, start, end)
        d = core.CUR.decide
        a, b = span.start, simp(span.start + span.length)
        for pos, n, data in span.file.segs:
            end = simp(pos + n)
            if d(z3.Or(end <= a, pos >= b, n <= 0)):
                continue
            if isinstance_real(data, int):
                lo = a if d(a > pos) else pos
                hi = b if d(b < end) else end
                self.items.append((True, data, lo, hi))
                continue
            i = 0
            if d(a > pos):
                i = int(mkint(simp(a - pos)))
            j = len(data)
            if d(b < end):
                j = int(mkint(simp(b - pos)))
            for k in range(i, j):
                self.items.append((False, data[k], simp(pos + k), simp(pos + k + 1)))
        self.data = bytes(x[1] for x in self.items)

    def offset(self, k):
        if k < 0:
            return k
        return mkint(simp(self.items[k][2] - self.span.start))

    def match(self, m):
        if m is None:
            return None
        return SpanMatch(self, m)


class SpanMatch(Sym):
    __slots__ = ("w", "m")

    def __init__(self, w, m):
        self.w, self.m = w, m
        a, b = m.span()
        if any(x[0] for x in w.items[a:b]) or a == b:
            raise core.Limit("match in a run of bytes")

    def __bool__(self):
        return True

    def span(self, g=0):
        return self.start(g), self.end(g)

    def start(self, g=0):
        a, b = self.m.span(g)
        return mkint(simp(self.w.items[a][2] - self.w.span.start))

    def end(self, g=0):
        a, b = self.m.span(g)
        return mkint(simp(self.w.items[b - 1][3] - self.w.span.start))

    def group(self, g=0):
        return self.m.group(g)


class TextSpan(Sym):
    """text decoded from an opaque span (one byte per character)"""
    __slots__ = ("span",)

    def __init__(self, span):
        self.span = span

    @property
    def __class__(self):
        return str

    def len_(self):
        return self.span.len_()

    def __getitem__(self, k):
        return TextSpan(self.span[k])

    def __bool__(self):
        return bool(self.span)

    def concrete(self):
        return self

    def lacks(self, pattern, flags=0):
        """no match of a pattern, which does not depend on how long runs are"""
        import re as _re
        if not isinstance_real(self.span.file, PatFile):
            raise core.Limit("replacement in opaque text")
        p = _re.compile(pattern, flags)
        items = Window(self.span).items
        for k in (1, 2, 8):
            t = "".join(chr(b) * (k if run else 1) for run, b, _, _ in items)
            if p.search(t):
                raise core.Limit("replacement in text of unknown length")
        return self

    def replace(self, old, new, count=-1):
        import re as _re
        return self.lacks(_re.escape(old))


def literal(span):
    """the bytes of a span of literal content, else the span"""
    w = Window(span)
    return span if any(x[0] for x in w.items) else w.data


def realize(span):
    """the bytes of a span of runs and literals, by choosing all lengths"""
    out = b""
    for run, b, lo, hi in Window(span).items:
        out += bytes([b]) * (int(mkint(simp(hi - lo))) if run else 1)
    return out


class Buffer(io.BytesIO):
    """a BytesIO that can also be filled with a span"""
    sym = None

    def write(self, data):
        if type(data) is SymSpan:
            if self.sym is not None or len(self.getvalue()):
                raise core.Limit("several writes to a buffer")
            self.sym = SymStream(data, "bytesio")
            self.sym.seek(0, 2)
            return data.len_()
        if self.sym is not None:
            raise core.Limit("several writes to a buffer")
        return io.BytesIO.write(self, data)


for _n in ("read", "read1", "seek", "tell", "getvalue", "getbuffer", "readline",
           "readlines", "__iter__", "__next__"):
    def _mk(n):
        def f(self, *a):
            if self.sym is not None:
                return getattr(self.sym, n)(*a)
            return getattr(io.BytesIO, n)(self, *a)
        return f
    setattr(Buffer, _n, _mk(_n))


def clamp_index(v, n):
    """python slice index normalisation, by forking"""
    v = zint(v)
    if core.CUR.decide(v < 0):
        v = simp(v + n)
        return z3.IntVal(0) if core.CUR.decide(v < 0) else v
    return n if core.CUR.decide(v > n) else v


def slice_bounds(start, stop, n):
    n = simp(n)
    a = z3.IntVal(0) if start is None else clamp_index(start, n)
    b = n if stop is None else clamp_index(stop, n)
    if core.CUR.decide(b < a):
        b = a
    return simp(a), simp(b)


KINDS = {
    "raw": io.BufferedReader, "bytesio": io.BytesIO, "gz": gzip.GzipFile,
    "bz2": bz2.BZ2File, "zipext": zipfile.ZipExtFile,
}


class SymStream(Sym):
    __slots__ = ("span", "pos", "kind", "closed", "name", "hidden")

    def __init__(self, span, kind="raw", name=None):
        self.kind, self.closed = kind, False
        # what a compressed file looks like before it is unpacked
        self.hidden, packed = span, getattr(span.file, "packed", None)
        if packed is not None and kind not in (packed, "bytesio"):
            if kind != "raw":
                raise OSError("not a file of this kind")
            f = FileObj("packed", None, b"\x1f\x8bPACKED" * 50)
            span = SymSpan(f, 0, f.size)
        self.span = span
        self.pos = z3.IntVal(0)
        self.name = name

    @property
    def __class__(self):
        return KINDS[self.kind]

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def seekable(self):
        return True

    readable = seekable

    def size_(self):
        return self.span.length

    def seek(self, off, whence=0):
        off = zint(off)
        base = {0: z3.IntVal(0), 1: self.pos, 2: self.span.length}[
            int(ops.deep_concrete(whence))]
        new = simp(base + off)
        if core.CUR.decide(new < 0):
            raise OSError("negative seek")
        self.pos = new
        return mkint(new)

    def tell(self):
        return mkint(self.pos)

    def _avail(self):
        rest = simp(self.span.length - self.pos)
        return z3.IntVal(0) if core.CUR.decide(rest < 0) else rest

    def read(self, n=None):
        avail = self._avail()
        if n is None:
            take = avail
        else:
            n = zint(n)
            take = avail if core.CUR.decide(n < 0) else zmin(n, avail)
        out = SymSpan(self.span.file, self.span.start + self.pos, take)
        self.pos = simp(self.pos + take)
        c = self.span.file.content
        if c is not None:
            a, b = int(mkint(out.start)), int(mkint(out.start)) + int(mkint(out.length))
            return c[a:b]
        return out

    read1 = read

    def take_all(self):
        return self.read()

    def getbuffer(self):
        return self.span

    getvalue = getbuffer

    def fileno(self):
        if self.kind in ("bytesio", "zipext"):
            raise io.UnsupportedOperation("fileno")
        return 99

    def _content(self):
        c = self.span.file.content
        if c is None:
            from . import dense, rec
            if type(self.span.file) is not dense.ValFile:
                raise core.Limit("line reading of an opaque file")
            return rec.content(self.span)
        s = int(mkint(self.span.start))
        return c[s: s + int(mkint(self.span.length))]

    def readline(self):
        if isinstance_real(self.span.file, PatFile):
            avail = self._avail()
            rest = SymSpan(self.span.file, self.span.start + self.pos, avail)
            w = Window(rest)
            ix = w.data.find(b"\n")
            n = avail if ix < 0 else simp(w.items[ix][3] - rest.start)
            self.pos = simp(self.pos + n)
            return literal(SymSpan(rest.file, rest.start, n))
        c, p = self._content(), int(mkint(self.pos))
        c = strings.SymBytes(tuple(c)) if isinstance_real(c, bytes) and not \
            isinstance_real(c, Sym) else c
        rest = c[p:]
        if len(rest) == 0:
            return b""
        ix = ops.mcall(rest, "find", b"\n")
        ln = rest if ix < 0 else rest[: ix + 1]
        self.pos = z3.IntVal(p + len(ln))
        return ln

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if not ln:
            raise StopIteration
        return ln


# ------------------------------------------------------- virtual file system
def vfs():
    return core.CUR.state.setdefault("fs", {})


def add_file(path, fobj):
    vfs()[path] = fobj
    return path


def lookup(fn):
    if core.CUR is None or isinstance_real(fn, int):
        return None
    if core.CUR.state.get("dirs"):
        from . import paths
        f = paths.find(fn)
        if f is not None:
            return f
    if not vfs():
        return None
    try:
        fn = os.fspath(fn)
    except TypeError:
        return None
    if not isinstance_real(fn, str) or isinstance_real(fn, Sym):
        return None
    return vfs().get(fn)


_open = builtins.open


@ops.handler(builtins.open, io.open, always=True)
def h_open(fn, mode="r", *a, **k):
    f = lookup(fn)
    if f is None:
        return _open(fn, mode, *a, **k)
    span = SymSpan(f, 0, f.size)
    if "b" in mode:
        return SymStream(span, "raw", fn if isinstance_real(fn, Sym)
                         else os.fspath(fn))
    data = f.content
    if data is None and "w" not in mode:
        from . import dense, rec
        if type(f) is dense.ValFile:
            data = rec.content(span)
        elif isinstance_real(f, PatFile):
            data = span
    if data is not None:
        text = ops.mcall(data, "decode", k.get("encoding") or "utf-8", k.get("errors") or "strict")
        if k.get("newline") is None:
            text = ops.mcall(text, "replace", "\r\n", "\n")
            text = ops.mcall(text, "replace", "\r", "\n")
        return SymTextStream(text)
    raise core.Limit("text read of an opaque file")


def _wrap(kind):
    def h(filename=None, mode=None, fileobj=None, *a, **k):
        fp = fileobj if fileobj is not None else filename
        if type(fp) is SymStream:
            return SymStream(fp.hidden, kind, fp.name)
        f = lookup(fp)
        if f is not None:
            return SymStream(SymSpan(f, 0, f.size), kind, os.fspath(fp))
        cls = KINDS[kind]
        if cls is gzip.GzipFile:
            return cls(filename, mode, fileobj=fileobj, *a, **k) if fileobj is not None \
                else cls(filename, mode or "rb")
        return cls(fp)
    return h


ops.ALWAYS[gzip.GzipFile] = _wrap("gz")
ops.ALWAYS[bz2.BZ2File] = _wrap("bz2")
ops.ALWAYS[bz2.open] = _wrap("bz2")
ops.ALWAYS[gzip.open] = _wrap("gz")
try:
    from isal import igzip
    ops.ALWAYS[igzip.GzipFile] = _wrap("gz")
except ImportError:
    pass


class SymZip:
    def __init__(self, fp):
        self.fp = fp

    def infolist(self):
        return ["member"]

    namelist = infolist

    def open(self, name, mode="r"):
        return SymStream(self.fp.hidden, "zipext", self.fp.name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@ops.handler(zipfile.ZipFile, always=True)
def h_zipfile(fp, *a, **k):
    if type(fp) is SymStream:
        return SymZip(fp)
    f = lookup(fp)
    if f is not None:
        return SymZip(SymStream(SymSpan(f, 0, f.size)))
    return zipfile.ZipFile(fp, *a, **k)


@ops.handler(os.path.getsize, always=True)
def h_getsize(fn):
    f = lookup(fn)
    return os.path.getsize(fn) if f is None else mkint(f.size)


@ops.handler(io.BytesIO, always=True)
def h_bytesio(initial=b""):
    if type(initial) is SymSpan:
        return SymStream(initial, "bytesio")
    if isinstance_real(initial, strings.SymBytes):
        return SymBytesIO(initial)
    return Buffer(initial) if initial == b"" else io.BytesIO(initial)


def SymBytesIO(content):
    f = FileObj("bytesio", content=content)
    return SymStream(SymSpan(f, 0, f.size), "bytesio")


class SymTextStream(Sym):
    """io.StringIO / text file over a symbolic string"""
    __slots__ = ("text", "pos", "closed", "newline")

    def __init__(self, text, newline="\n"):
        """newline: "" for lines that end with CR LF, CR or LF"""
        self.text, self.pos, self.closed = text, 0, False
        self.newline = newline

    @property
    def __class__(self):
        return io.StringIO

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self.closed = True

    def read(self, n=None):
        rest = self.text[self.pos:]
        out = rest if n is None or n < 0 else rest[: n]
        self.pos += out.len_() if type(out) is TextSpan else len(out)
        return out

    def seek(self, k, whence=0):
        self.pos = k
        return k

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.text

    def readline(self):
        rest = self.text[self.pos:]
        if len(rest) == 0:
            return ""
        ix = ops.mcall(rest, "find", "\n")
        if self.newline == "":
            cr = ops.mcall(rest, "find", "\r")
            if 0 <= cr and (ix < 0 or cr + 1 < ix):
                ix = cr
        ln = rest if ix < 0 else rest[: ix + 1]
        self.pos += len(ln)
        return ln

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if len(ln) == 0:
            raise StopIteration
        return ln

    def readlines(self):
        return list(self)


SymStringIO = SymTextStream


@ops.handler(io.TextIOWrapper, always=True)
def h_textio(buffer, encoding=None, errors=None, newline=None, *a, **k):
    if type(buffer) is not SymStream or newline not in (None, "", "\n"):
        return io.TextIOWrapper(buffer, encoding, errors, newline, *a, **k)
    text = ops.mcall(buffer.read(), "decode", encoding or "utf-8", errors or "strict")
    if newline is None:
        for old in ("\r\n", "\r"):
            text = ops.mcall(text, "replace", old, "\n")
    return SymTextStream(text, newline if newline is not None else "\n")


@ops.handler(io.StringIO, always=True)
def h_stringio(initial="", newline="\n"):
    if type(initial) is TextSpan:
        initial = realize(initial.span).decode("latin-1")
    if isinstance_real(initial, Sym):
        return SymTextStream(initial)
    return io.StringIO(initial, newline)
