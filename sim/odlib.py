"""Shared by the OData scenarios."""
import boot

edm = edmx = odata = memds = None

HEAD = '''<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="Sim" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
'''
TAIL = '</Schema></edmx:DataServices></edmx:Edmx>'


def setup():
    global edm, edmx, odata, memds
    import pyslet.odata2.csdl as a
    import pyslet.odata2.edmx as b
    import pyslet.odata2.core as c
    import pyslet.odata2.memds as d
    import pyslet.odata2.metadata
    import pyslet.iso8601
    import pyslet.rfc2616
    edm, edmx, odata, memds = a, b, c, d
    boot.quiet_del(a.EntityCollection)
    # the model keys a dictionary by these; identity hashes would make its order differ between processes
    a.AssociationSetEnd.__hash__ = lambda self: hash((self.parent.name, self.name))
    a.AssociationSetEnd.__eq__ = lambda self, other: self is other


_docs = {}


def load(xml):
    """The schema document for this text, parsed once."""
    import pyslet.odata2.metadata as m
    if xml not in _docs:
        if len(_docs) > 400:
            _docs.clear()
        doc = m.Document()
        doc.Read(src=xml)
        _docs[xml] = doc
    return _docs[xml]


def container(doc):
    """A new in-memory container bound to the default container of the document."""
    return memds.InMemoryEntityContainer(doc.root.DataServices.defaultContainer)
