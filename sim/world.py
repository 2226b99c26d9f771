# -*- coding: utf-8 -*-
"""The simulated world: file system, clock, network, database, hash order.

install() routes the seams the code already has (builtin open, os, time,
urllib2.urlopen, the DB-API connection, random) to simulated counterparts and
uninstall() puts the real ones back.
"""
import __builtin__
import errno
import os
import posixpath
import random
import sys
import tempfile
import time
import urllib2
import warnings

from core import SimCrash, Rng, HarnessError, u8

REAL = {
    'open': __builtin__.open,
    'file': __builtin__.file,
    'exists': os.path.exists,
    'isfile': os.path.isfile,
    'isdir': os.path.isdir,
    'listdir': os.listdir,
    'remove': os.remove,
    'rename': os.rename,
    'makedirs': os.makedirs,
    'mkdir': os.mkdir,
    'rmdir': os.rmdir,
    'lstat': os.lstat,
    'stat': os.stat,
    'chmod': os.chmod,
    'getcwd': os.getcwd,
    'time': time.time,
    'localtime': time.localtime,
    'gmtime': time.gmtime,
    'strftime': time.strftime,
    'mktime': time.mktime,
    'sleep': time.sleep,
    'urlopen': urllib2.urlopen,
    'randint': random.randint,
    'random': random.random,
    'choice': random.choice,
    'stdout': sys.stdout,
    'stderr': sys.stderr,
    'stdin': sys.stdin,
    'argv': sys.argv,
}
TMPDIR = tempfile.gettempdir()
REAL_RAW_INPUT = __builtin__.raw_input
warnings.simplefilter('ignore')


class Callable(object):
  """A callable that is not a function (Jython binds functions put on Java
  classes such as the time module)."""

  def __init__(self, fn):
    self.fn = fn

  def __call__(self, *a, **k):
    return self.fn(*a, **k)


# --------------------------------------------------------------------------
# Clock
# --------------------------------------------------------------------------
class SimClock(object):
  """UTC clock under the simulator's control.  schedule: list of
  (after_n_reads, jump_seconds) consumed in order."""

  def __init__(self, start, jumps=(), tick=0.0, ctx=None):
    self.now = float(start)
    self.reads = 0
    self.jumps = sorted([list(j) for j in jumps])
    self.tick = tick
    self.ctx = ctx
    self.seen_min = self.now
    self.seen_max = self.now

  def read(self):
    self.reads += 1
    while self.jumps and self.reads > self.jumps[0][0]:
      j = self.jumps.pop(0)
      self.now += j[1]
      if self.ctx:
        self.ctx.fault('clock_jump_back' if j[1] < 0 else 'clock_jump_fwd')
    self.now += self.tick
    self.seen_min = min(self.seen_min, self.now)
    self.seen_max = max(self.seen_max, self.now)
    return self.now

  def advance(self, secs):
    self.now += secs
    if self.ctx:
      self.ctx.simtime += abs(secs)
    self.seen_min = min(self.seen_min, self.now)
    self.seen_max = max(self.seen_max, self.now)

  def sleep(self, secs):
    self.advance(secs)


# --------------------------------------------------------------------------
# File system
# --------------------------------------------------------------------------
class Node(object):
  __slots__ = ('data', 'is_dir', 'perm')

  def __init__(self, is_dir=False, data=''):
    self.is_dir = is_dir
    self.data = data
    self.perm = None     # None | 'noread' | 'nowrite'


class SimFile(object):
  """File object over a Node.  Writes reach the node as they are issued
  (optionally through a write-back buffer), so a crash keeps a prefix."""

  def __init__(self, fs, path, node, mode):
    self.fs = fs
    self.path = path
    self.name = path
    self.node = node
    self.mode = mode
    self.pos = 0
    self.closed = False
    self.softspace = 0
    self.incarnation = fs.incarnation
    self.buf = ''         # bytes the process wrote, not yet at the OS
    self.bufpos = 0
    self.errors = None
    self.encoding = None
    self.newlines = None
    self.writable = mode[0] in 'wa' or '+' in mode
    self.readable = mode[0] == 'r' or '+' in mode
    if mode[0] == 'a':
      self.pos = len(node.data)

  def _dead(self):
    return self.incarnation != self.fs.incarnation or self.fs.dead

  def _check(self):
    if self.closed:
      raise ValueError('I/O operation on closed file')

  def read(self, n=-1):
    self._check()
    self._flush()
    if not self.readable:
      raise IOError(errno.EBADF, os.strerror(errno.EBADF))
    if self._dead():
      raise SimCrash()
    data = self.node.data
    if n is None or n < 0:
      out = data[self.pos:]
    else:
      out = data[self.pos:self.pos + n]
    out = self.fs.fault('read', self.path, out, self)
    self.pos += len(out)
    return out

  def readline(self, n=-1):
    self._check()
    self._flush()
    data = self.node.data
    i = data.find('\n', self.pos)
    end = len(data) if i < 0 else i + 1
    if n is not None and n >= 0:
      end = min(end, self.pos + n)
    out = data[self.pos:end]
    out = self.fs.fault('read', self.path, out, self)
    self.pos += len(out)
    return out

  def readlines(self, hint=-1):
    return list(self)

  def __iter__(self):
    return self

  def next(self):
    line = self.readline()
    if not line:
      raise StopIteration
    return line

  def write(self, s):
    self._check()
    if not self.writable:
      raise IOError(errno.EBADF, os.strerror(errno.EBADF))
    if self._dead():
      return
    if isinstance(s, unicode):
      s = s.encode('ascii')    # what a Python 2 file does
    elif not isinstance(s, str):
      s = str(s)               # e.g. array / buffer
    if self.fs.buffer_size:
      if not self.buf:
        self.bufpos = self.pos
      self.buf += s
      self.pos += len(s)
      if len(self.buf) >= self.fs.buffer_size:
        self._flush()
    else:
      self._raw_write(s)

  def _raw_write(self, s):
    self.fs.writes += 1
    keep, exc = self.fs.write_fault(self.path, s, self)
    d = self.node.data
    if self.mode[0] == 'a':
      self.pos = len(d)
    if self.pos > len(d):
      d = d + '\0' * (self.pos - len(d))
    self.node.data = d[:self.pos] + keep + d[self.pos + len(keep):]
    self.pos += len(keep)
    if exc is not None:
      raise exc

  def _flush(self):
    if not self.buf or self._dead():
      return
    s, self.buf = self.buf, ''
    end = self.pos
    self.pos = self.bufpos
    self._raw_write(s)
    self.pos = max(end, self.pos)

  def writelines(self, lines):
    for line in lines:
      self.write(line)

  def flush(self):
    self._check()
    if not self._dead():
      self._flush()
      self.fs.fault('flush', self.path, '', self)

  def close(self):
    if self.closed:
      return
    try:
      if not self._dead():
        self._flush()
        if self.writable:
          self.fs.fault('close', self.path, '', self)
    finally:
      self.closed = True
      self.fs.open_files.pop(id(self), None)

  def seek(self, off, whence=0):
    self._check()
    if not self._dead():
      self._flush()
    if whence == 0:
      self.pos = off
    elif whence == 1:
      self.pos += off
    else:
      self.pos = len(self.node.data) + off
    if self.pos < 0:
      self.pos = 0
      raise IOError(errno.EINVAL, os.strerror(errno.EINVAL))

  def tell(self):
    self._check()
    return self.pos

  def truncate(self, size=None):
    self._check()
    if not self._dead():
      self._flush()
      if size is None:
        size = self.pos
      self.node.data = self.node.data[:size]

  def isatty(self):
    return False

  def fileno(self):
    raise IOError(errno.EBADF, 'simulated file has no descriptor')

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class _FileMeta(type):
  world = None

  def __instancecheck__(cls, x):
    return isinstance(x, (SimFile, REAL['file']))

  def __call__(cls, *a, **k):
    return _FileMeta.world._open(*a, **k)


class FileType(object):
  """Stands for the builtin type file."""
  __metaclass__ = _FileMeta


class SimFS(object):
  ROOT = '/sim'

  def __init__(self, ctx=None, faults=(), buffer_size=0):
    self.ctx = ctx
    self.nodes = {self.ROOT: Node(True)}
    self.faults = [dict(f) for f in faults]
    self.buffer_size = buffer_size
    self.incarnation = 0
    self.dead = False
    self.counts = {}
    self.open_files = {}
    self.oplog = []
    self.full = False
    self.writes = 0
    self.cwd = self.ROOT
    self.listdir_rng = None
    self.touched = set()      # paths opened for writing, removed or renamed
    self.reads = []           # every path opened for reading
    self.outside_writes = []

  # -- fault plan ---------------------------------------------------------
  def _match(self, op, path):
    hit = None
    for f in self.faults:
      if f['op'] != op or f.get('done'):
        continue
      p = f.get('path') and u8(f['path'])
      if p and not (path == p or path.endswith(p)):
        continue
      if f.get('under') and not path.startswith(u8(f['under'])):
        continue
      f['seen'] = f.get('seen', 0) + 1
      if hit is None and f['seen'] == f.get('nth', 1):
        hit = f
        if not f.get('sticky'):
          f['done'] = True
        else:
          f['nth'] = f['seen'] + 1
    return hit

  def _count(self, kind):
    self.counts[kind] = self.counts.get(kind, 0) + 1
    if self.ctx:
      self.ctx.fault(kind)

  def _note(self, op, path, extra=''):
    if self.ctx is not None and len(self.oplog) < 2000:
      self.oplog.append('%s %s %s' % (op, path, extra))

  def crash(self):
    self.dead = True
    raise SimCrash()

  def reboot(self):
    """A new process: handles of the old one are detached."""
    self.incarnation += 1
    self.dead = False
    self.open_files = {}

  def fault(self, op, path, data, fobj):
    """Fault point; returns the bytes to deliver."""
    f = self._match(op, path)
    if f is None:
      return data
    kind = f['kind']
    self._count('%s_%s' % (op, kind))
    if kind == 'EIO':
      raise IOError(errno.EIO, 'Input/output error')
    if kind == 'ENOSPC':
      raise IOError(errno.ENOSPC, 'No space left on device')
    if kind == 'CRASH':
      self.crash()
    if kind == 'SHORT':          # premature end of data
      return data[:int(len(data) * f.get('frac', 50) // 100)]
    if kind == 'FLIP' and data:
      i = f.get('at', 0) % len(data)
      c = chr(ord(data[i]) ^ (1 << (f.get('bit', 0) % 8)))
      return data[:i] + c + data[i + 1:]
    return data

  def write_fault(self, path, s, fobj):
    """(bytes that reach the disk, exception or None)"""
    if self.full:
      return '', IOError(errno.ENOSPC, 'No space left on device')
    f = self._match('write', path)
    if f is None:
      return s, None
    kind = f['kind']
    self._count('write_%s' % kind)
    part = s[:int(len(s) * f.get('frac', 50) // 100)]
    if kind == 'EIO':
      return '', IOError(errno.EIO, 'Input/output error')
    if kind == 'TORN':
      return part, IOError(errno.EIO, 'Input/output error')
    if kind == 'ENOSPC':
      self.full = True
      return part, IOError(errno.ENOSPC, 'No space left on device')
    if kind == 'CRASH':
      self.dead = True
      return part, SimCrash()
    return s, None

  # -- paths ----------------------------------------------------------------
  def mine(self, path):
    if not isinstance(path, basestring):
      return False
    return self.norm(path) is not None

  def norm(self, path):
    """Normalised simulated path or None if it is a real path."""
    if isinstance(path, unicode):
      path = path.encode('utf-8')
    if not path.startswith('/'):
      path = posixpath.join(self.cwd, path)
    p = posixpath.normpath(path)
    if p == self.ROOT or p.startswith(self.ROOT + '/'):
      return p
    return None

  def rmdir(self, path):
    p = self.norm(path)
    if not self.isdir(p):
      raise OSError(errno.ENOENT, 'No such file or directory', path)
    if [q for q in self.nodes if posixpath.dirname(q) == p]:
      raise OSError(errno.ENOTEMPTY, 'Directory not empty', path)
    del self.nodes[p]

  def mkdir(self, path, mode=None):
    p = self.norm(path)
    parts = p.split('/')
    for i in range(2, len(parts) + 1):
      q = '/'.join(parts[:i])
      if q not in self.nodes:
        self.nodes[q] = Node(True)
    return p

  def put(self, path, data):
    p = self.norm(path)
    self.mkdir(posixpath.dirname(p))
    self.nodes[p] = Node(False, data)
    return p

  def get(self, path):
    n = self.nodes.get(self.norm(path))
    if n is None or n.is_dir:
      return None
    return n.data

  def snapshot(self):
    return dict((p, n.data) for p, n in self.nodes.items() if not n.is_dir)

  # -- system calls ---------------------------------------------------------
  def open(self, path, mode='r', *rest):
    p = self.norm(path)
    if self.dead:
      raise SimCrash()
    if not mode or mode[0] not in 'rwaU':
      raise ValueError('mode string must begin with r, w, a or U')
    if mode[0] == 'U':
      mode = 'r' + mode
    writing = mode[0] in 'wa' or '+' in mode
    self._note('open', p, mode)
    f = self._match('openw' if writing else 'open', p)
    if f is not None:
      kind = f['kind']
      self._count('open_%s' % kind)
      if kind == 'CRASH':
        self.crash()
      code = {'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE,
              'ENOSPC': errno.ENOSPC, 'ENOENT': errno.ENOENT}.get(kind)
      if code:
        raise IOError(code, os.strerror(code), path)
    n = self.nodes.get(p)
    if n is not None and n.is_dir:
      raise IOError(errno.EISDIR, 'Is a directory', path)
    if writing:
      self.touched.add(p)
    else:
      self.reads.append(p)
    if mode[0] == 'r':
      if n is None:
        raise IOError(errno.ENOENT, 'No such file or directory', path)
    else:
      parent = self.nodes.get(posixpath.dirname(p))
      if parent is None or not parent.is_dir:
        raise IOError(errno.ENOENT, 'No such file or directory', path)
      if n is None:
        n = self.nodes[p] = Node(False, '')
      elif mode[0] == 'w':
        n.data = ''
    fo = SimFile(self, p, n, mode)
    self.open_files[id(fo)] = fo
    return fo

  def exists(self, path):
    return self.norm(path) in self.nodes

  def isfile(self, path):
    n = self.nodes.get(self.norm(path))
    return n is not None and not n.is_dir

  def isdir(self, path):
    n = self.nodes.get(self.norm(path))
    return n is not None and n.is_dir

  def stat(self, path):
    n = self.nodes.get(self.norm(path))
    if n is None:
      raise OSError(errno.ENOENT, 'No such file or directory', path)
    mode = 040755 if n.is_dir else 0100644
    return os.stat_result((mode, id(n), 1, 1, 0, 0, len(n.data or ''),
                           0, 0, 0)) if hasattr(os, 'stat_result') else (
        mode, id(n), 1, 1, 0, 0, len(n.data or ''), 0, 0, 0)

  def listdir(self, path):
    p = self.norm(path)
    if not self.isdir(p):
      raise OSError(errno.ENOENT, 'No such file or directory', path)
    f = self._match('listdir', p)
    if f is not None:
      self._count('listdir_%s' % f['kind'])
      raise OSError(errno.EIO, 'Input/output error', path)
    out = sorted(posixpath.basename(q) for q in self.nodes
                 if q != p and posixpath.dirname(q) == p)
    if self.listdir_rng is not None:
      self.listdir_rng.shuffle(out)
    return out

  def remove(self, path):
    p = self.norm(path)
    if not self.isfile(p):
      raise OSError(errno.ENOENT, 'No such file or directory', path)
    self.touched.add(p)
    del self.nodes[p]

  def rename(self, a, b):
    pa, pb = self.norm(a), self.norm(b)
    if pa not in self.nodes:
      raise OSError(errno.ENOENT, 'No such file or directory', a)
    f = self._match('rename', pb)
    if f is not None:
      self._count('rename_%s' % f['kind'])
      if f['kind'] == 'CRASH':
        self.crash()
      raise OSError(errno.EIO, 'Input/output error', b)
    self.touched.add(pa)
    self.touched.add(pb)
    self.nodes[pb] = self.nodes.pop(pa)


# --------------------------------------------------------------------------
# Network
# --------------------------------------------------------------------------
class SimResponse(object):
  """What urllib2.urlopen returns; may fail part way."""

  def __init__(self, net, body, spec):
    self.net = net
    self.body = body
    self.spec = spec
    self.pos = 0
    self.code = spec.get('code', 200)
    self.msg = 'OK'

  def _fail(self):
    raise self.net.make_exc(self.spec['fail_read'])

  def read(self, n=-1):
    if 'fail_read' in self.spec and (
        n is None or n < 0 or self.pos + n > self.spec.get('after', 0)):
      self._fail()      # what came before is lost
    if n is None or n < 0:
      out = self.body[self.pos:]
    else:
      out = self.body[self.pos:self.pos + n]
    self.pos += len(out)
    return out

  def readline(self, n=-1):
    if 'fail_read' in self.spec and self.pos >= self.spec.get('after', 0):
      self._fail()
    i = self.body.find('\n', self.pos)
    end = len(self.body) if i < 0 else i + 1
    out = self.body[self.pos:end]
    self.pos = end
    return out

  def __iter__(self):
    while True:
      line = self.readline()
      if not line:
        return
      yield line

  def close(self):
    pass

  def info(self):
    return {}

  def getcode(self):
    return self.code

  def geturl(self):
    return 'http://sim/'


class SimNet(object):
  def __init__(self, ctx=None, plan=None):
    self.ctx = ctx
    self.plan = plan or []       # list of specs, one per request
    self.requests = []

  def make_exc(self, name):
    import socket
    import httplib
    table = {
        'timeout': lambda: socket.timeout('timed out'),
        'reset': lambda: socket.error(errno.ECONNRESET,
                                      'Connection reset by peer'),
        'refused': lambda: urllib2.URLError(
            socket.error(errno.ECONNREFUSED, 'Connection refused')),
        'dns': lambda: urllib2.URLError(
            socket.gaierror(-2, 'Name or service not known')),
        'http404': lambda: urllib2.HTTPError('http://sim/', 404, 'Not Found',
                                             {}, None),
        'http500': lambda: urllib2.HTTPError('http://sim/', 500, 'Server Error',
                                             {}, None),
        'badstatus': lambda: httplib.BadStatusLine(''),
        'incomplete': lambda: httplib.IncompleteRead('partial'),
        'ioerror': lambda: IOError(errno.EIO, 'Input/output error'),
        'valueerror': lambda: ValueError('unknown url type'),
    }
    return table[name]()

  def urlopen(self, url, *a, **k):
    i = len(self.requests)
    self.requests.append(str(url))
    spec = self.plan[i] if i < len(self.plan) else {'fail': 'dns'}
    if self.ctx and spec.get('kind'):
      self.ctx.fault('net_' + spec['kind'])
    if 'fail' in spec:
      raise self.make_exc(spec['fail'])
    return SimResponse(self, spec.get('body', '').encode('latin-1'), spec)


# --------------------------------------------------------------------------
# Hash order
# --------------------------------------------------------------------------
class SimDict(dict):
  """dict whose iteration order is drawn from the simulator's PRNG: order is a
  function of (salt, insertion history), i.e. any order a hash table may
  have."""
  _simrng = None

  def _order(self):
    ks = dict.keys(self)
    try:
      ks = sorted(ks, key=_stable_key)
    except Exception:
      pass
    Rng(self._salt()).shuffle(ks)
    return ks

  def _salt(self):
    return getattr(self, '_sim_salt', 0) * 1000003 + len(self)

  def __iter__(self):
    return iter(self._order())

  def keys(self):
    return self._order()

  def values(self):
    return [self[k] for k in self._order()]

  def items(self):
    return [(k, self[k]) for k in self._order()]

  def iterkeys(self):
    return iter(self._order())

  def itervalues(self):
    return iter(self.values())

  def iteritems(self):
    return iter(self.items())

  def popitem(self):
    k = self._order()[0]
    return (k, self.pop(k))

  def copy(self):
    d = SimDict(self)
    d._sim_salt = getattr(self, '_sim_salt', 0)
    return d


class SimDefaultDict(SimDict):
  default_factory = None

  def __missing__(self, key):
    v = self[key] = self.default_factory()
    return v

  def __getitem__(self, key):
    try:
      return dict.__getitem__(self, key)
    except KeyError:
      return self.__missing__(key)


def _stable_key(k):
  if isinstance(k, unicode):
    return (1, k.encode('utf-8'))
  if isinstance(k, str):
    return (1, k)
  if isinstance(k, (int, long, float)):
    return (0, k)
  return (2, repr(k))


def simdictify(obj, salt, only=None):
  """Replace every plain dict attribute of obj by a SimDict."""
  n = 0
  for name in sorted(vars(obj)):
    v = vars(obj)[name]
    if only and name not in only:
      continue
    if isinstance(v, SimDict):
      v._sim_salt = salt
      n += 1
    elif type(v) is dict:
      d = SimDict(v)
      d._sim_salt = salt
      obj.__dict__[name] = d
      n += 1
    elif isinstance(v, dict) and hasattr(v, 'default_factory'):
      d = SimDefaultDict(v)
      d.default_factory = v.default_factory
      d._sim_salt = salt
      obj.__dict__[name] = d
      n += 1
  return n


# --------------------------------------------------------------------------
# Database seam
# --------------------------------------------------------------------------
class DbFaultError(Exception):
  pass


class SimCursor(object):
  def __init__(self, cur, db):
    self.__dict__['_cur'] = cur
    self.__dict__['_db'] = db

  def execute(self, sql, *a, **k):
    self._db.before(sql)
    return self._cur.execute(sql, *a, **k)

  def executemany(self, sql, *a, **k):
    self._db.before(sql)
    return self._cur.executemany(sql, *a, **k)

  def __iter__(self):
    return iter(self._cur.fetchall())

  def __getattr__(self, name):
    return getattr(self._cur, name)

  def __setattr__(self, name, v):
    setattr(self._cur, name, v)


class SimConnection(object):
  def __init__(self, conn, db):
    self._conn = conn
    self._db = db

  def cursor(self, *a):
    return SimCursor(self._conn.cursor(*a), self._db)

  def __getattr__(self, name):
    return getattr(self._conn, name)


class SimDb(object):
  """Wraps connections; faults: list of {'nth': n, 'verb': 'INSERT'|...,
  'kind': 'full'|'ioerr'|'locked'}"""

  def __init__(self, ctx=None, faults=()):
    self.ctx = ctx
    self.faults = [dict(f) for f in faults]
    self.statements = 0
    self.connections = 0
    self.files = []
    self.raised = 0

  def before(self, sql):
    self.statements += 1
    verb = sql.strip().split(None, 1)[0].upper()
    for f in self.faults:
      if f.get('done'):
        continue
      if f.get('verb') and f['verb'] != verb:
        continue
      if f.get('under') and not path.startswith(u8(f['under'])):
        continue
      f['seen'] = f.get('seen', 0) + 1
      if f['seen'] == f.get('nth', 1):
        f['done'] = True
        if self.ctx:
          self.ctx.fault('db_' + f['kind'])
        self.raised += 1
        import java.sql
        from com.ziclix.python.sql import zxJDBC
        raise zxJDBC.OperationalError(
            {'full': 'database or disk is full', 'ioerr': 'disk I/O error',
             'locked': 'database is locked'}[f['kind']])

  def connect(self, real_connect, *a, **k):
    self.connections += 1
    if a and isinstance(a[0], basestring):
      self.files.append(a[0])
    return SimConnection(real_connect(*a, **k), self)


# --------------------------------------------------------------------------
# Output capture and the world
# --------------------------------------------------------------------------
class Sink(object):
  """Captured stdout/stderr; can be broken (EPIPE) after n bytes."""

  def __init__(self, fail_after=None):
    self.parts = []
    self.failed = False
    self.ascii = False     # a pipe: unicode text must be plain ASCII
    self.size = 0
    self.fail_after = fail_after
    self.softspace = 0
    self.encoding = 'utf-8'

  def write(self, s):
    if isinstance(s, unicode):
      s = s.encode('ascii' if self.ascii else 'utf-8')
    if self.fail_after is not None and self.size >= self.fail_after:
      self.failed = True
      raise IOError(errno.EPIPE, 'Broken pipe')
    self.parts.append(s)
    self.size += len(s)

  def writelines(self, lines):
    for x in lines:
      self.write(x)

  def flush(self):
    pass

  def isatty(self):
    return False

  def text(self):
    return ''.join(self.parts)


# Finalisers run whenever the garbage collector feels like it; the simulator
# runs them itself (World.finalise), right when the owner dies, as reference
# counting does.
import zipfile
_zip_init = zipfile.ZipFile.__init__
ZIPS = []


def _tracked_init(self, *a, **k):
  ZIPS.append(self)
  _zip_init(self, *a, **k)


zipfile.ZipFile.__init__ = _tracked_init
if '__del__' in zipfile.ZipFile.__dict__:
  del zipfile.ZipFile.__del__


class World(object):
  """Everything the code can touch, installed for the length of one run."""

  def __init__(self, ctx, start=1400000000.0, fs_faults=(), clock_jumps=(),
               tick=0.0, net_plan=None, db_faults=(), rand_seed=1,
               buffer_size=0):
    self.ctx = ctx
    self.fs = SimFS(ctx, fs_faults, buffer_size)
    self.clock = SimClock(start, clock_jumps, tick, ctx)
    self.net = SimNet(ctx, net_plan)
    self.db = SimDb(ctx, db_faults)
    self.rng = Rng(rand_seed)
    self.rand_script = None     # optional list of draws for randint
    self.rand_calls = 0
    self.tz = 0
    self.dst = None
    self.stdout = Sink()
    self.stderr = Sink()
    self.input_lines = []
    self.input_fault = None
    self.installed = False
    self.browser = []

  # seams
  def _open(self, path, *a, **k):
    if self.fs.mine(path):
      return self.fs.open(path, *a, **k)
    mode = a[0] if a else k.get('mode', 'r')
    if isinstance(mode, basestring) and mode and (mode[0] in 'wa' or
                                                  '+' in mode):
      # The code tries to write outside of the simulated disk: record it and
      # give it a throw-away simulated file instead.
      self.fs.outside_writes.append(path)
      p = self.fs.put('/sim/outside/%d' % len(self.fs.outside_writes), '')
      return self.fs.open(p, mode)
    return REAL['open'](path, *a, **k)

  def _wrap(self, simfn, realfn):
    def f(path, *a):
      if self.fs.mine(path):
        return simfn(path, *a)
      return realfn(path, *a)
    return f

  def _guard(self, simfn, name):
    def f(path, *a):
      if self.fs.mine(path):
        return simfn(path, *a)
      if isinstance(path, basestring) and path.startswith(TMPDIR + '/'):
        return REAL[name](path, *a)
      self.fs.outside_writes.append('%s %s' % (name, path))
      return None
    return f

  def _strftime(self, fmt, t=None):
    if t is None:
      t = self._localtime()
    return REAL['strftime'](fmt, t)

  def _offset(self, t):
    """Seconds east of UTC at instant t: self.tz plus an hour of daylight
    saving time between the two instants of self.dst."""
    if self.dst and self.dst[0] <= t < self.dst[1]:
      return self.tz + 3600
    return self.tz

  def _localtime(self, t=None):
    if t is None:
      t = self.clock.read()
    return REAL['gmtime'](t + self._offset(t))

  def _gmtime(self, t=None):
    if t is None:
      t = self.clock.read()
    return REAL['gmtime'](t)

  def _mktime(self, tt):
    import calendar
    t = float(calendar.timegm(tuple(tt)))
    return t - self._offset(t - self.tz)

  def _randint(self, a, b):
    self.rand_calls += 1
    if self.rand_script:
      v = self.rand_script.pop(0)
      return a + (v % (b - a + 1))
    return a + self.rng.below(b - a + 1)

  def _raw_input(self, prompt=''):
    if self.input_fault:
      self.ctx.fault('stdin_' + self.input_fault)
      if self.input_fault == 'interrupt':
        raise KeyboardInterrupt()
      raise IOError(errno.EIO, 'Input/output error')
    if not self.input_lines:
      raise EOFError()
    return self.input_lines.pop(0)

  def finalise(self):
    """Run the finalisers of archives nobody closed."""
    zips = list(ZIPS)
    del ZIPS[:]
    for z in zips:
      if getattr(z, 'fp', None) is not None:
        try:
          z.close()
          if self.ctx:
            self.ctx.probe('finaliser_closed_archive')
        except SimCrash:
          pass
        except Exception:
          pass
    for f in sorted(self.fs.open_files.values(), key=lambda f: f.path):
      try:
        f.close()
      except SimCrash:
        pass
      except Exception:
        pass

  def install(self):
    if self.installed:
      return
    del ZIPS[:]
    self.installed = True
    __builtin__.open = self._open
    _FileMeta.world = self
    __builtin__.file = FileType
    __builtin__.raw_input = self._raw_input
    os.path.exists = self._wrap(self.fs.exists, REAL['exists'])
    os.path.isfile = self._wrap(self.fs.isfile, REAL['isfile'])
    os.path.isdir = self._wrap(self.fs.isdir, REAL['isdir'])
    os.listdir = self._wrap(self.fs.listdir, REAL['listdir'])
    os.remove = self._guard(self.fs.remove, 'remove')
    os.unlink = self._guard(self.fs.remove, 'remove')
    os.rename = self._guard(self.fs.rename, 'rename')
    os.mkdir = self._guard(self.fs.mkdir, 'mkdir')
    os.makedirs = self._guard(self.fs.mkdir, 'makedirs')
    os.rmdir = self._guard(self.fs.rmdir, 'rmdir')
    os.lstat = self._wrap(self.fs.stat, REAL['lstat'])
    os.stat = self._wrap(self.fs.stat, REAL['stat'])
    os.chmod = self._guard(lambda path, mode: None, 'chmod')
    os.getcwd = lambda: self.fs.cwd
    time.time = Callable(self.clock.read)
    time.localtime = Callable(self._localtime)
    time.gmtime = Callable(self._gmtime)
    time.strftime = Callable(self._strftime)
    time.mktime = Callable(self._mktime)
    time.sleep = Callable(self.clock.sleep)
    urllib2.urlopen = self.net.urlopen
    random.randint = self._randint
    random.random = lambda: self.rng.below(1 << 30) / float(1 << 30)
    random.choice = lambda seq: seq[self.rng.below(len(seq))]
    sys.stdout = self.stdout
    sys.stderr = self.stderr
    import webbrowser
    webbrowser.open = lambda *a, **k: self.browser.append(a)
    from com.ziclix.python.sql import zxJDBC
    self._real_connect = zxJDBC.connect
    real = self._real_connect
    zxJDBC.connect = staticmethod(
        lambda *a, **k: self.db.connect(real, *a, **k))

  def uninstall(self):
    if not self.installed:
      return
    self.installed = False
    __builtin__.open = REAL['open']
    __builtin__.file = REAL['file']
    __builtin__.raw_input = REAL_RAW_INPUT
    os.path.exists = REAL['exists']
    os.path.isfile = REAL['isfile']
    os.path.isdir = REAL['isdir']
    os.listdir = REAL['listdir']
    os.remove = REAL['remove']
    os.unlink = REAL['remove']
    os.rename = REAL['rename']
    os.mkdir = REAL['mkdir']
    os.makedirs = REAL['makedirs']
    os.rmdir = REAL['rmdir']
    os.lstat = REAL['lstat']
    os.stat = REAL['stat']
    os.chmod = REAL['chmod']
    os.getcwd = REAL['getcwd']
    time.time = REAL['time']
    time.localtime = REAL['localtime']
    time.gmtime = REAL['gmtime']
    time.strftime = REAL['strftime']
    time.mktime = REAL['mktime']
    time.sleep = REAL['sleep']
    urllib2.urlopen = REAL['urlopen']
    random.randint = REAL['randint']
    random.random = REAL['random']
    random.choice = REAL['choice']
    sys.stdout = REAL['stdout']
    sys.stderr = REAL['stderr']
    sys.argv = REAL['argv']
    from com.ziclix.python.sql import zxJDBC
    zxJDBC.connect = staticmethod(self._real_connect)

  def __enter__(self):
    self.install()
    return self

  def __exit__(self, *a):
    self.uninstall()
    del ZIPS[:]
    # In-flight handles of this run must not act later (finalisers).
    self.fs.dead = True
    self.fs.incarnation += 1
