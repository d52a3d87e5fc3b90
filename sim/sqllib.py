"""Shared by the scenarios of the SQL data service."""
import os
import boot
import dst
import odlib

sqlds = simsql = None


def setup():
    global sqlds, simsql
    boot.install(sql=True)
    odlib.setup()
    import simsql as a
    import pyslet.odata2.sqlds as b
    simsql, sqlds = a, b
    boot.quiet_del(b.SQLEntityContainer)


def path(name):
    return os.path.join(boot.scratch(), name)


def fresh(name):
    """The path of a database file that does not exist."""
    p = path(name)
    for suf in ('', '-journal', '-wal', '-shm'):
        if os.path.exists(p + suf):
            os.remove(p + suf)
    return p


def container(doc, p, **kw):
    return sqlds.SQLiteEntityContainer(filePath=p, containerDef=doc.root.DataServices.defaultContainer, **kw)


def rows(p, sql):
    """The result of a query, read through a connection of its own (which first recovers from the journal)."""
    import Sqlite
    rc, db = Sqlite.open(p)
    try:
        rc, st = Sqlite.prepare(db, sql)
        if rc:
            raise dst.HarnessError('query: %s: %s' % (sql, Sqlite.errmsg(db)))
        r = []
        rc = Sqlite.step(st)
        while rc == Sqlite.ROW:
            r.append(tuple([simplify(Sqlite.column(st, i)) for i in range(Sqlite.columns(st))]))
            rc = Sqlite.step(st)
        Sqlite.finalize_(st)
        if rc != Sqlite.DONE:
            raise dst.HarnessError('query: %d %s' % (rc, Sqlite.errmsg(db)))
        return r
    finally:
        Sqlite.close(db)


def simplify(v):
    if v is not None and not isinstance(v, (int, long, float, unicode, str)):
        return ('blob', ''.join(['%02x' % (b & 255) for b in v]))
    return v
