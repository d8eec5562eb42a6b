"""C11: attached labels end at their END statement."""
from symex.api import Harness

PROPERTY = "C11"
META = dict(
    title="An attached label is read up to its END statement, wherever that is",
    statement="The label of a file with an attached PDS3 label is the text from the start of the file through its END statement (which may be followed by blanks, CR LF, CR or LF), and nothing that follows: neither binary data, null bytes nor text that looks like another END after it is taken into the label, and it does not matter where the END statement lies in relation to the blocks in which the file is read. The label is found if it is no longer than the limit in force (1000 kB by default). A file without END is read to its end (or refused if an ending was required); a file whose head is not text is refused when strictly decoded.",
    quantifier="all label lengths up to 160 kB (and around 1000 kB, the default limit), all distances to what follows, all listed forms of END and of following data",
    why="The end is searched block by block with several patterns; whether END is found depends on its position relative to block boundaries and on the bytes after it, which no test varies.",
    files=["pdr/parselabel/utils.py", "pdr/parselabel/pds3.py"],
    mechanism=[("search for the end", "pdr/parselabel/utils.py:_scan_to_end_of_label"),
               ("decoding", "pdr/parselabel/utils.py:trim_label")],
    note="Label body is a run of one text byte of symbolic length (20..160000), then an END marker, a run of non-text bytes of symbolic length, a second marker, and another run; all positions symbolic.",
)

ENDS = [b"\nEND\r\n", b"\r\nEND\r\n", b"\nEND\n", b"\nEND  \r\n", b"\nEND" + b" " * 12,
        b"\nEND       \r\n", b"\nEND\r"]
FOLLOW = [b"\0\0\0\0", b"\nEND\r\n", b"\nEND\n", b"\nEND" + b" " * 9]


def kb(sx, name, lo=20, hi=160_000):
    return sx.int(name, lo, hi)


def end(sx, e, nulls=False):
    """body, END, binary, something that looks like an end, binary"""
    from pdr.parselabel.utils import trim_label
    e = ENDS[e]
    n = kb(sx, "body", hi=70_000)
    g, t = kb(sx, "gap", 1, 60_000), kb(sx, "tail", 0, 60_000)
    f = FOLLOW[sx.choice("follow", list(range(len(FOLLOW))))]
    fn = sx.pattern_file("F", [(n, 65), (None, e), (g, 255), (None, f), (t, 255)],
                         ".IMG")
    out = sx.run(trim_label, fn)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    # through "END", and no further than the end of its line
    sx.check(sx.text_range(out.value, fn, n + e.index(b"END") + 3, n + len(e)),
             "label ends at END")


def straddle(sx, e):
    """the END statement around block boundaries, nothing misleading after"""
    from pdr.parselabel.utils import trim_label
    e = ENDS[e]
    n, t = kb(sx, "body"), kb(sx, "tail", 0)
    fn = sx.pattern_file("F", [(n, 65), (None, e), (t, 255)], ".IMG")
    strict = sx.bool("strict")
    out = sx.run(trim_label, fn, strict_decode=True if strict else False)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(sx.text_range(out.value, fn, n + e.index(b"END") + 3, n + len(e)),
             "label ends at END")


def long(sx, e):
    """labels of up to nearly 1000 kB, the stated limit"""
    from pdr.parselabel.utils import trim_label
    e = ENDS[e]
    n, t = sx.int("body", 970_000, 1_023_900), sx.int("tail", 0, 200)
    fn = sx.pattern_file("F", [(n, 65), (None, e), (t, 255)], ".IMG")
    out = sx.run(trim_label, fn)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(sx.text_range(out.value, fn, n + e.index(b"END") + 3, n + len(e)),
             "label ends at END")


def limit(sx):
    """a label no longer than max_size is read whatever max_size is"""
    from pdr.parselabel.utils import trim_label
    e = ENDS[0]
    n, t = kb(sx, "body"), kb(sx, "tail", 0)
    limit = sx.int("limit", 1, 400_000)
    sx.assume(n + len(e) <= limit)
    fn = sx.pattern_file("F", [(n, 65), (None, e), (t, 255)], ".LBL")
    out = sx.run(trim_label, fn, max_size=limit, raise_no_ending=True)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(sx.text_range(out.value, fn, n + e.index(b"END") + 3, n + len(e)),
             "label ends at END")


def no_end(sx):
    from pdr.parselabel.utils import trim_label, InvalidAttachedLabel
    n = kb(sx, "body", 0)
    fn = sx.pattern_file("F", [(n, 65)], ".LBL")
    need = sx.bool("need")
    out = sx.run(trim_label, fn, raise_no_ending=True if need else False)
    if need:
        sx.check(out.raised(InvalidAttachedLabel), "missing END is refused")
        return
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    sx.check(sx.text_range(out.value, fn, n, n), "whole file")


def binary_head(sx):
    from pdr.parselabel.utils import trim_label, InvalidAttachedLabel
    k = sx.int("k", 0, 30)
    t = kb(sx, "tail", 1)
    fn = sx.pattern_file("F", [(k, 65), (t, 255)], ".IMG")
    strict = sx.bool("strict")
    out = sx.run(trim_label, fn, strict_decode=True if strict else False)
    if strict:
        sx.check(out.raised(InvalidAttachedLabel), "binary file is refused")
    elif not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
    else:
        sx.check(sx.text_range(out.value, fn, k + t, k + t), "whole file")


LABEL = (b"PDS_VERSION_ID = PDS3\nRECORD_BYTES = 512\n^IMAGE = 3\n"
         b"OBJECT = IMAGE\n  LINES = 7\nEND_OBJECT = IMAGE")


def whole(sx, suf, e):
    """the label as read from the product"""
    from pdr.parselabel.pds3 import read_pvl
    g, t = kb(sx, "gap", 1), kb(sx, "tail", 0)
    f = FOLLOW[sx.choice("follow", list(range(len(FOLLOW))))]
    fn = sx.pattern_file("F", [(None, LABEL + ENDS[e]), (g, 255), (None, f),
                               (t, 255)], suf)
    out = sx.run(read_pvl, fn)
    if not out.ok:
        sx.fail(f"unexpected exception {out.excname}")
        return
    m, params = out.value
    sx.check(list(m.keys()) == ["PDS_VERSION_ID", "RECORD_BYTES", "^IMAGE", "IMAGE"],
             "keywords of the label")
    sx.check(m["RECORD_BYTES"] == 512 and m["IMAGE"]["LINES"] == 7, "values")
    sx.check(sorted(params) == sorted(
        ["PDS_VERSION_ID", "RECORD_BYTES", "^IMAGE", "IMAGE", "LINES"]), "parameters")


F = ["trim_label", "_scan_to_end_of_label", "read_pvl", "decompress"]
S = ["open -> file of runs and literals with symbolic lengths",
     "re.search on it -> real matcher on the visible literals, runs represented by one byte"]
B = "body and gaps up to 160000 bytes (with misleading text after END: 70000 and 60000)"
HARNESSES = (
    [Harness(f"end_{i}", end, F, B, S, params=dict(e=i)) for i in range(len(ENDS))]
    + [Harness(f"straddle_{i}", straddle, F, B, S, params=dict(e=i)) for i in (0, 2, 4)]
    + [Harness(f"long_{i}", long, F, "body 970000..1023900 bytes", S, params=dict(e=i))
       for i in (0, 2)]
    + [Harness("limit", limit, F, "labels up to 160000, limits up to 400000 bytes", S)]
    + [Harness("no_end", no_end, F, B, S), Harness("binary_head", binary_head, F, B, S)]
    + [Harness(f"whole{s}_{e}", whole, F, B, S, params=dict(suf=s, e=e))
       for s, e in ((".IMG", 0), (".LBL", 2), (".IMG.gz", 1), (".IMG", 4))]
)
