"""The sqlite3 module (as in Python 2.7) over the system's SQLite library, under the simulator's control.

The database engine, its files, its locking and its journal are the real ones.  What
is simulated is when each call happens (every call is a scheduling step and may take
simulated time), waiting for a locked database (simulated time instead of sleeping), and
faults: `world` decides before and after every call whether it fails, and can copy the
database's files at any call, which is what a crash of the process leaves behind."""
import sys
import os
import types
import shutil
import dst
import Sqlite
import jarray

apilevel = '2.0'
paramstyle = 'qmark'
version = '2.6.0'


class Warning(StandardError):
    pass


class Error(StandardError):
    pass


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class InternalError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class DataError(DatabaseError):
    pass


class NotSupportedError(DatabaseError):
    pass

Binary = buffer


class World(object):
    """What happens at database calls.  A scenario replaces `hook` to inject faults.

    hook(when, conn, op, n): when is 'before' or 'after', op one of connect, execute, fetch,
    commit, rollback, close; n counts the calls.  It may raise, or sleep."""

    def __init__(self):
        self.reset()

    def reset(self, hook=None, on_share=None):
        for c in list(getattr(self, 'open', ())):
            c._destroy()
        self.n = 0
        self.hook = hook
        self.on_share = on_share
        self.open = []
        self.max_open = 0
        self.calls = {}
        self.threads = {}
        self.opened = 0

    def call(self, when, conn, op, sql=None):
        sim = dst.active()
        if sim is None:
            return
        if when == 'before':
            self.n += 1
            self.calls[op] = self.calls.get(op, 0) + 1
            sim.step('db')
        if self.hook is not None:
            self.hook(when, conn, op, self.n, sql)

world = World()


def me():
    sim = dst.active()
    if sim is None or sim.cur is None:
        return None
    return sim.cur


def _error(db, rc):
    msg = Sqlite.errmsg(db) if db else 'error %d' % rc
    code = rc & 255
    if code in (2, 12):
        return InternalError(msg)
    if code == 7:
        return MemoryError()
    if code in (1, 3, 4, 5, 6, 8, 9, 10, 13, 14, 15, 16, 17):
        return OperationalError(msg)
    if code == 18:
        return DataError(msg)
    if code in (19, 20):
        return IntegrityError(msg)
    if code == 21:
        return ProgrammingError(msg)
    return DatabaseError(msg)


def connect(database, timeout=5.0, detect_types=0, isolation_level='', check_same_thread=True, factory=None, cached_statements=100):
    return Connection(database, timeout, isolation_level, check_same_thread)


class Connection(object):
    Warning, Error, InterfaceError, DatabaseError = Warning, Error, InterfaceError, DatabaseError
    InternalError, OperationalError, ProgrammingError = InternalError, OperationalError, ProgrammingError
    IntegrityError, DataError, NotSupportedError = IntegrityError, DataError, NotSupportedError

    def __init__(self, database, timeout, isolation_level, check_same_thread):
        self.isolation_level = isolation_level
        self._timeout = timeout
        self._task = me()
        self._check = check_same_thread
        self._db = 0
        self._cursors = []
        self._epoch = 0
        self._waiting = None
        self._interrupted = False
        self._id = world.opened
        self.path = database
        world.call('before', self, 'connect')
        rc, db = Sqlite.open(database)
        if rc:
            e = OperationalError('unable to open database file')
            Sqlite.close(db)
            raise e
        self._db = db
        world.opened += 1
        self._run('PRAGMA synchronous=OFF')
        world.open.append(self)
        world.max_open = max(world.max_open, len(world.open))
        try:
            world.call('after', self, 'connect')
        except Error:
            self._destroy()
            raise

    def _run(self, sql):
        rc, st = Sqlite.prepare(self._db, sql)
        if rc == 0:
            rc = Sqlite.step(st)
            while rc == Sqlite.ROW:
                rc = Sqlite.step(st)
            Sqlite.finalize_(st)
        return rc

    def _guard(self):
        if not self._db:
            raise ProgrammingError('Cannot operate on a closed database.')
        t = me()
        if self._check and t is not None and self._task is not None and t is not self._task:
            raise ProgrammingError('SQLite objects created in a thread can only be used in that same thread.')
        if world.on_share is not None and t is not None:
            for c in self._cursors:
                if c._task is not None and c._task is not t:
                    world.on_share(self, c._task, t)

    def _wait(self, deadline):
        """Waits a moment for another connection's lock; False when the time is up."""
        sim = dst.active()
        if sim is None or sim.now() >= deadline:
            return False
        self.pause(min(0.02, deadline - sim.now()))
        return True

    def pause(self, dt):
        """Simulated time inside a call; interrupt() cuts it short."""
        sim = dst.active()
        self._waiting = sim.cur
        sim.block(sim.now() + dt, 'db')
        self._waiting = None
        if self._interrupted:
            self._interrupted = False
            raise OperationalError('interrupted')

    def _retry(self, fn):
        """Runs fn, which gives a status, waiting while the database is locked as sqlite3's busy handler does."""
        sim = dst.active()
        deadline = (sim.now() if sim is not None else 0) + self._timeout
        while True:
            reading = Sqlite.txnState(self._db) == 1
            rc = fn()
            if rc & 255 == Sqlite.BUSY and not reading and self._wait(deadline):
                continue
            return rc

    def cursor(self):
        self._guard()
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def _begin(self):
        rc = self._run('BEGIN ' + self.isolation_level)
        if rc != Sqlite.DONE:
            raise _error(self._db, rc)

    @property
    def _intrans(self):
        return not Sqlite.autocommit(self._db)

    def commit(self):
        self._guard()
        world.call('before', self, 'commit')
        if self._intrans:
            rc = self._retry(lambda: self._run('COMMIT'))
            if rc != Sqlite.DONE:
                raise _error(self._db, rc)
        world.call('after', self, 'commit')

    def rollback(self):
        self._guard()
        world.call('before', self, 'rollback')
        if self._intrans:
            self._epoch += 1
            for c in self._cursors:
                c._reset()
            rc = self._run('ROLLBACK')
            if rc != Sqlite.DONE:
                raise _error(self._db, rc)
        world.call('after', self, 'rollback')

    def interrupt(self):
        if not self._db:
            raise ProgrammingError('Cannot operate on a closed database.')
        if self._waiting is not None:
            self._interrupted = True
            dst.active().wake(self._waiting)

    def close(self):
        t = me()
        if self._check and t is not None and self._task is not None and t is not self._task:
            raise ProgrammingError('SQLite objects created in a thread can only be used in that same thread.')
        if self._db:
            world.call('before', self, 'close')
        self._destroy()

    def _destroy(self):
        if self._db:
            for c in list(self._cursors):
                c._drop()
            Sqlite.close(self._db)
            self._db = 0
            if self in world.open:
                world.open.remove(self)


class Cursor(object):
    arraysize = 1

    def __init__(self, conn):
        self.connection = conn
        self.rowcount = -1
        self.lastrowid = None
        self.description = None
        self._st = 0
        self._row = None
        self._closed = False
        self._task = me()
        self._epoch = conn._epoch
        self._stale = False
        conn._cursors.append(self)

    def _guard(self):
        if self._closed:
            raise ProgrammingError('Cannot operate on a closed cursor.')
        self.connection._guard()

    def _drop(self):
        if self._st:
            Sqlite.finalize_(self._st)
            self._st = 0
        self._row = None

    def _reset(self):
        if self._st:
            self._drop()
            self._stale = True

    def _bind(self, st, params):
        n = Sqlite.parameters(st)
        if n != len(params):
            raise ProgrammingError('Incorrect number of bindings supplied. The current statement uses %d, and there are %d supplied.' % (n, len(params)))
        for i, v in enumerate(params):
            i += 1
            if v is None:
                rc = Sqlite.bindNull(st, i)
            elif isinstance(v, bool):
                rc = Sqlite.bindLong(st, i, int(v))
            elif isinstance(v, (int, long)):
                if not -2 ** 63 <= v < 2 ** 63:
                    raise OverflowError('long too big to convert')
                rc = Sqlite.bindLong(st, i, v)
            elif isinstance(v, float):
                rc = Sqlite.bindDouble(st, i, v)
            elif isinstance(v, unicode):
                rc = Sqlite.bindText(st, i, v)
            elif isinstance(v, str):
                try:
                    rc = Sqlite.bindText(st, i, v.decode('ascii'))
                except UnicodeError:
                    raise ProgrammingError('You must not use 8-bit bytestrings unless you use a text_factory that can interpret 8-bit bytestrings')
            elif isinstance(v, buffer):
                rc = Sqlite.bindBlob(st, i, jarray.array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in str(v)], 'b'))
            elif type(v) in _adapters:
                rc = Sqlite.bindText(st, i, unicode(_adapters[type(v)](v)))
            else:
                raise InterfaceError('Error binding parameter %d - probably unsupported type.' % (i - 1))
            if rc:
                raise InterfaceError('Error binding parameter %d' % (i - 1))

    def _fetch(self):
        r = []
        for i in range(self._ncol):
            v = Sqlite.column(self._st, i)
            if v is not None and not isinstance(v, (int, long, float, unicode, str)):
                v = buffer(''.join([chr(b & 255) for b in v]))
            elif isinstance(v, str):
                v = unicode(v)
            elif isinstance(v, long) and -sys.maxint - 1 <= v <= sys.maxint:
                v = int(v)
            r.append(v)
        return tuple(r)

    def _step(self):
        c = self.connection

        def fn():
            rc = Sqlite.step(self._st)
            if rc & 255 == Sqlite.BUSY:
                Sqlite.reset(self._st)
            return rc
        rc = c._retry(fn)
        if rc == Sqlite.ROW:
            self._row = self._fetch()
        else:
            self._row = None
            if rc != Sqlite.DONE:
                e = _error(c._db, rc)
                self._drop()
                raise e
        return rc

    def execute(self, sql, params=()):
        self._guard()
        c = self.connection
        self._drop()
        self._stale = False
        self.rowcount = -1
        self.description = None
        if os.environ.get("VERIF_SQL"):
            sys.stderr.write("%s %r\n" % (sql, params))
        world.call('before', c, 'execute', sql)
        word = sql.split(None, 1)[0].upper() if sql.strip() else ''
        dml = word in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE')
        if c.isolation_level is not None:
            if dml:
                if not c._intrans:
                    c._begin()
            elif word != 'SELECT' and c._intrans:
                rc = c._retry(lambda: c._run('COMMIT'))
                if rc != Sqlite.DONE:
                    raise _error(c._db, rc)
        rc, st = Sqlite.prepare(c._db, sql)
        if rc:
            raise _error(c._db, rc)
        if not st:
            return self
        try:
            self._bind(st, list(params))
        except:
            Sqlite.finalize_(st)
            raise
        self._st = st
        self._ncol = Sqlite.columns(st)
        self._step()
        if self._ncol:
            self.description = tuple((None,) * 7 for i in range(self._ncol))
        if dml:
            self.rowcount = Sqlite.changes(c._db)
        if self._row is None:
            self._drop()
        world.call('after', c, 'execute', sql)
        return self

    def fetchone(self):
        self._guard()
        if self._stale:
            raise InterfaceError('Cursor needed to be reset because of commit/rollback and can no longer be fetched from.')
        if self._row is None:
            return None
        world.call('before', self.connection, 'fetch')
        r = self._row
        if r is not None and self._st:
            if self._step() != Sqlite.ROW:
                self._drop()
        return r

    def fetchall(self):
        r = []
        while True:
            x = self.fetchone()
            if x is None:
                return r
            r.append(x)

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        self._guard()
        self._drop()
        self._closed = True
        if self in self.connection._cursors:
            self.connection._cursors.remove(self)

_adapters = {}


def _module():
    m = types.ModuleType('sqlite3')
    for k in ('apilevel paramstyle version Warning Error InterfaceError DatabaseError InternalError OperationalError ProgrammingError '
              'IntegrityError DataError NotSupportedError Binary connect Connection Cursor').split():
        setattr(m, k, globals()[k])
    m.threadsafety = 1
    m.sqlite_version = '3'
    return m


def install():
    """Call after the simulator's clock is in place: Timestamp and friends come from datetime."""
    m = _module()
    import datetime
    m.Date, m.Time, m.Timestamp = datetime.date, datetime.time, datetime.datetime
    _adapters[datetime.date] = lambda v: v.isoformat()
    _adapters[datetime.datetime] = lambda v: v.isoformat(' ')
    sys.modules['sqlite3'] = m
    return m


def copy(path, to):
    """What a crash of the process now would leave on disk."""
    for suf in ('', '-journal', '-wal'):
        if os.path.exists(to + suf):
            os.remove(to + suf)
        if os.path.exists(path + suf):
            shutil.copyfile(path + suf, to + suf)


def dump(path):
    """All rows of all tables, read through a connection of its own (which first recovers from the journal)."""
    rc, db = Sqlite.open(path)
    try:
        def rows(sql):
            rc, st = Sqlite.prepare(db, sql)
            if rc:
                raise dst.HarnessError('dump: ' + Sqlite.errmsg(db))
            r = []
            rc = Sqlite.step(st)
            while rc == Sqlite.ROW:
                row = []
                for i in range(Sqlite.columns(st)):
                    v = Sqlite.column(st, i)
                    if v is not None and not isinstance(v, (int, long, float, unicode, str)):
                        v = ('blob', ''.join(['%02x' % (b & 255) for b in v]))
                    row.append(v)
                r.append(tuple(row))
                rc = Sqlite.step(st)
            Sqlite.finalize_(st)
            if rc != Sqlite.DONE:
                raise dst.HarnessError('dump: %d %s' % (rc, Sqlite.errmsg(db)))
            return r
        d = {}
        for name, in rows("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name"):
            d[str(name)] = sorted(rows('SELECT * FROM "%s"' % name))
        return d
    finally:
        Sqlite.close(db)
