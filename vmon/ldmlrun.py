"""Driving the real document class: loading, saving, capturing output. Public API only."""
import io, os
from sldr.ldml import Ldml, etwrite
from . import ldmlgen as g

CDATA = ("cr", "sil:note", "sil:text")


class Named(io.BytesIO):
    pass


def load(xml, cls=Ldml, **kw):
    return cls(io.BytesIO(xml.encode("utf-8") if isinstance(xml, str) else xml), **kw)


def save(doc, topns=True):
    out = []
    doc.serialize_xml(out.append, topns=topns)
    return "".join(out)


def normsave(doc, topns=True, usedrafts=True):
    doc.normalise(usedrafts=usedrafts)
    return save(doc, topns=topns)


def default_draft(tree):
    for c in tree[3]:
        if c[0] == "identity":
            for s in c[3]:
                if s[0] == "special":
                    for i in s[3]:
                        if i[0] == "sil:identity":
                            return i[1].get("draft", "unconfirmed")
    return "unconfirmed"


def drop_drafts(e, default):
    """ What a document that honours drafts writes: no draft on parents, none when it is the default """
    att = dict(e[1])
    if att.get("draft") and (e[3] or att["draft"] == default) and e[0] != "sil:identity":
        del att["draft"]
    return [e[0], att, e[2], [drop_drafts(c, default) for c in e[3]], e[4]]


def normtree(e):
    return [e[0], e[1], g.norm_text(e[2]) if not e[3] else None, [normtree(c) for c in e[3]], e[4]]
