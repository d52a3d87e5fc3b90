"""Loads the code under test from the working tree of /repo, inside the simulator."""
import sys
import os
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'pyslet')
HERE = os.path.dirname(os.path.abspath(__file__))
for p in ('/opt/vp/runner', HERE):
    if p not in sys.path:
        sys.path.insert(0, p)
import compat
compat.install()

import dst
import prims
import simnet
import random

_done = []


class SimUrandom(object):
    """os.urandom, seeded per run."""
    rng = random.Random(1)
    fail = False

    def __call__(self, n):
        if self.fail:
            raise NotImplementedError('/dev/urandom (or equivalent) not found')
        return ''.join([chr(self.rng.randrange(256)) for i in xrange(n)])

urandom = SimUrandom()


def install(sql=False, disk=False):
    if _done:
        return
    _done.append(1)
    import StringIO, io, codecs, hashlib, base64, decimal, json, logging, tempfile, shutil, zipfile, traceback
    prims.install()
    simnet.install()
    if disk:
        import simdisk
        simdisk.install()
    for m in ('datetime', 'uuid'):
        sys.modules.pop(m, None)
    os.urandom = urandom
    import uuid

    def uuid4():
        return uuid.UUID(bytes=urandom(16), version=4)
    uuid.uuid4 = uuid4
    import datetime
    if sql:
        import types
        types.BufferType = buffer
        if hasattr(types, '__all__') and 'BufferType' not in types.__all__:
            types.__all__.append('BufferType')
        import simsql
        simsql.install()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)


_scratch = []


def scratch():
    """A directory of this process's own; bin/check removes it."""
    if not _scratch:
        d = os.environ.get('VERIF_SCRATCH')
        if not d:
            import tempfile
            d = tempfile.mkdtemp(prefix='verif-')
            _scratch.append(d)
            _scratch.append('own')
        else:
            _scratch.append(d)
    return _scratch[0]


def clean_scratch():
    if len(_scratch) > 1:
        import shutil
        shutil.rmtree(_scratch[0], True)


def seed(n):
    random.seed(n)
    urandom.rng = random.Random(n ^ 0x5eed)
    urandom.fail = False


def quiet_del(cls):
    """A finaliser run by the garbage collector at some arbitrary time is not part of a run."""
    if '__del__' in cls.__dict__:
        cls.__del__ = lambda self: None


def warm_xml():
    """Fills the caches that XML element classes make at their first use: a run must not depend on those before it."""
    import pyslet.xml20081126.structures as xml

    def walk(c):
        if '_ReMap' in dir(c) and isinstance(c, type):
            try:
                c.__new__(c)._ReMap()
            except Exception:
                pass
        for d in c.__subclasses__():
            walk(d)
    walk(xml.Element)
