"""CapiTainS repositories written to a scratch directory, and their plain model.

A repository (folder) is a dict {textgroup: {"works": {work: {"texts": [text, ...]}}}}; a text is a list
[name, kind, lang, status, mark, depth]: status ok | missing | norefs | badxml; mark is written in every line.
"""
import re
import os
import shutil
import tempfile
from contextlib import contextmanager
from xml.sax.saxutils import escape

from mc import docs

NSP = "urn:cts:latinLit:"
TI = 'xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:cpt="http://purl.org/capitains/ns/1.0#" xmlns:dc="http://purl.org/dc/elements/1.1/"'
SHAPES = {1: [[], []], 2: [[[], []], [[]]], 3: [[[[]], [[], []]]]}


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mcrepo")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_of(text):
    return {"shape": SHAPES[text[5]], "scheme": "child", "labels": "seq", "content": "unique", "wrap": 0, "noise": "",
            "refsdecl": text[3] != "norefs"}


def tei(text):
    return docs.xml(spec_of(text)).replace(">t", ">%s t" % text[4])


def group_xml(tg, labels=(("eng", "Group"),)):
    return '<ti:textgroup %s urn="%s%s">%s</ti:textgroup>' % (TI, NSP, tg, "".join(
        '<ti:groupname xml:lang="%s">%s</ti:groupname>' % (l, escape(v + " " + tg)) for l, v in labels))


def work_xml(tg, wk, texts, lang="lat"):
    out = ['<ti:work %s urn="%s%s.%s" groupUrn="%s%s" xml:lang="%s"><ti:title xml:lang="eng">Work %s</ti:title>' % (
        TI, NSP, tg, wk, NSP, tg, lang, wk)]
    for name, kind, tl, status, mark, depth in texts:
        out.append('<ti:%s urn="%s%s.%s.%s" workUrn="%s%s.%s"%s><ti:label xml:lang="eng">Text %s</ti:label>'
                   '<ti:description xml:lang="fre">Desc %s</ti:description></ti:%s>' % (
                       kind, NSP, tg, wk, name, NSP, tg, wk, ' xml:lang="%s"' % tl if tl else "", name, name, kind))
    return "\n".join(out) + "</ti:work>"


BROKEN = ["ill", "empty", "cut", "other", "nourn", "badurn", "half", "halfbad"]


def spoil(xml, kind):
    """a metadata file that cannot be read"""
    head, _, tail = xml.partition(">")
    if kind == "ill":
        return "<broken"
    if kind == "empty":
        return ""
    if kind == "cut":
        return xml[:-5]
    if kind == "other":
        return "<html/>"
    if kind == "nourn":
        return head.replace(" urn=", " id=") + ">" + tail
    if kind == "badurn":
        return re.sub(' urn="[^"]*"', ' urn="nothing"', head) + ">" + tail
    if kind in ("half", "halfbad"):
        # the last text has no urn, or a wrong one
        a, _, b = xml.rpartition(' urn="%s' % NSP)
        return a + (' n="' if kind == "half" else ' urn="x') + b
    return xml


def write(folder, base):
    for tg, t in folder.items():
        d = os.path.join(base, "data", tg)
        os.makedirs(d)
        with open(os.path.join(d, "__cts__.xml"), "w", encoding="utf-8") as f:
            f.write(spoil(group_xml(tg, t.get("labels", (("eng", "Group"),))), t.get("broken")))
        for wk, w in t["works"].items():
            dd = os.path.join(d, wk)
            os.makedirs(dd)
            with open(os.path.join(dd, "__cts__.xml"), "w", encoding="utf-8") as f:
                f.write(spoil(work_xml(tg, wk, w["texts"], w.get("lang", "lat")), w.get("broken")))
            for text in w["texts"]:
                if text[3] == "missing":
                    continue
                with open(os.path.join(dd, "%s.%s.%s.xml" % (tg, wk, text[0])), "w", encoding="utf-8") as f:
                    f.write("<TEI><unclosed>" if text[3] == "badxml" else tei(text))


def write_all(folders, base, names="repo%d"):
    paths = []
    for i, f in enumerate(folders):
        p = os.path.join(base, names % i)
        os.makedirs(p)
        write(f, p)
        paths.append(p)
    return paths


def model(folders, paths):
    """{text id: dict} of the union of the folders, later folders replacing earlier ones"""
    out = {}
    for f, p in zip(folders, paths):
        for tg, t in f.items():
            if t.get("broken"):
                continue
            for wk, w in t["works"].items():
                if w.get("broken"):
                    continue
                for text in w["texts"]:
                    u = "%s%s.%s.%s" % (NSP, tg, wk, text[0])
                    out[u] = {"id": u, "kind": text[1], "lang": w.get("lang", "lat") if text[1] == "edition" else text[2], "ok": text[3] == "ok",
                              "work": "%s%s.%s" % (NSP, tg, wk), "tg": NSP + tg, "text": text, "mark": text[4],
                              "path": os.path.join(p, "data", tg, wk, "%s.%s.%s.xml" % (tg, wk, text[0]))}
    return out


@contextmanager
def directory_order(order):
    """the operating system lists directories in an order of our choosing"""
    real_scan, real_list = os.scandir, os.listdir

    class Scan(object):
        def __init__(self, path="."):
            with real_scan(path) as it:
                es = sorted(it, key=lambda e: e.name)
            self.it = iter(es[::-1] if order else es)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def close(self):
            pass

    def ls(path="."):
        return sorted(real_list(path), reverse=bool(order))
    os.scandir, os.listdir = Scan, ls
    try:
        yield
    finally:
        os.scandir, os.listdir = real_scan, real_list
