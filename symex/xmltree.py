"""
XML labels whose names and texts are symbolic strings: the file holds unique
words in their place, for which the strings are put once the real parser has
read it.  The elements are those of the library's implementation in Python.
"""
from __future__ import annotations

import os
import xml.etree.ElementTree as ET

from . import core, ops, strings
from .core import isinstance_real

Element = ET._Element_Py
ELEMENT = ET.Element


def words():
    return core.CUR.state.setdefault("xml", {})


def put(s):
    """text with the strings for its words"""
    if s is None or not words():
        return s
    for w, v in words().items():
        if w in s:
            a, b = s.split(w, 1)
            v = put(a) + v if a else v
            return v + put(b) if b else v
    return s


class Parsed:
    def __init__(self, source, events):
        self.source, self.events = source, events
        self.root = None

    def __iter__(self):
        mine, stack = {}, []
        parser = ET.iterparse(self.source, events=("start-ns", "end-ns", "start", "end"))
        last = None
        for event, e in list(parser):
            if event == "start":
                new = Element(put(e.tag), {put(k): put(v) for k, v in e.attrib.items()})
                new.text, new.tail = put(e.text), put(e.tail)
                if stack:
                    stack[-1].append(new)
                else:
                    last = new
                stack.append(new)
                e = new
            elif event == "end":
                e = stack.pop()
            if event in self.events:
                yield event, e
        self.root = last

    def close(self):
        pass


@ops.handler(ET.iterparse, always=True)
def iterparse(source, events=None, parser=None):
    if not words() or not isinstance_real(source, (str, os.PathLike)):
        return ET.iterparse(source, events, parser)
    return Parsed(os.fspath(source), events or ("end",))


@ops.handler(ET.parse, always=True)
def parse(source, parser=None):
    if not words() or not isinstance_real(source, (str, os.PathLike)):
        return ET.parse(source, parser)
    p = Parsed(os.fspath(source), ())
    list(p)
    return ET.ElementTree(p.root)


# methods of the class of elements, called with the others
for _n in dir(ELEMENT):
    if not _n.startswith("__") and callable(getattr(ELEMENT, _n)):
        def _mk(real, mine):
            return lambda e, *a, **k: (mine if type(e) is Element else real)(e, *a, **k)
        ops.ALWAYS[getattr(ELEMENT, _n)] = _mk(getattr(ELEMENT, _n), getattr(Element, _n))
