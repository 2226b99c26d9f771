# -*- coding: utf-8 -*-
"""Simulated TCP for the schedule viewer: the real server loop and request
handlers run on scripted connections.

A script is a list of events, each taken when the server asks for one:
  {'req': bytes as latin-1 text, 'chunks': n, 'reset': n, 'eof': n,
   'epipe': n, 'late': secs}
                      a client; its request arrives in pieces of `chunks`
                      bytes; after `reset` bytes the connection is reset, after
                      `eof` bytes the client is gone; after `epipe` bytes of
                      the answer the client no longer listens
  {'idle': n}         nothing happens for n polls
  {'eintr': 1}        a signal interrupts the wait
  {'gone': n}         a client was there and has left: accept times out n times
  {'aborted': 1}      accept fails
After the last event the user presses Ctrl-C.
"""
import errno
import socket as real_socket
import select as real_select
import SocketServer
import BaseHTTPServer

from core import HarnessError


class SimConn(object):
  def __init__(self, net, spec):
    self.net = net
    self.spec = spec
    self.req = spec['req'].encode('latin-1')
    self.pos = 0
    self.buf = ''
    self.out = []
    self.size = 0
    self.closed = 0
    self.broken = False      # the client went away before the answer ended
    self.lost_request = False
    self.exc = None

  # what the server calls
  def settimeout(self, t):
    self.timeout = t

  def setsockopt(self, *a):
    pass

  def makefile(self, mode='r', bufsize=-1):
    return SimReader(self) if 'r' in mode else SimWriter(self)

  def shutdown(self, how):
    if self.closed:
      raise real_socket.error(errno.EBADF, 'Bad file descriptor')
    self.net.note('shutdown')

  def close(self):
    self.closed += 1

  def getpeername(self):
    return ('10.0.0.1', 5000)

  # delivery
  def arrive(self):
    """The next piece of the request; '' at its end."""
    spec = self.spec
    reset = spec.get('reset')
    if reset is not None and self.pos >= reset:
      self.broken = self.lost_request = True
      self.net.fault('conn_reset')
      raise real_socket.error(errno.ECONNRESET, 'Connection reset by peer')
    n = spec.get('chunks') or len(self.req) or 1
    end = len(self.req)
    if spec.get('eof') is not None:
      end = min(end, spec['eof'])
    if reset is not None:
      end = min(end, reset)
    piece = self.req[self.pos:min(self.pos + n, end)]
    self.pos += len(piece)
    if spec.get('late'):
      self.net.clock.advance(spec['late'])
    if not piece and reset is not None:
      return self.arrive()
    if not piece and spec.get('eof') is not None and \
        spec['eof'] < len(self.req):
      self.lost_request = True
      self.net.fault('conn_eof')
    return piece

  def deliver(self, s):
    limit = self.spec.get('epipe')
    if limit is not None and self.size + len(s) > limit:
      self.out.append(s[:limit - self.size])
      self.size = limit
      self.broken = True
      self.net.fault('conn_epipe')
      raise real_socket.error(errno.EPIPE, 'Broken pipe')
    self.out.append(s)
    self.size += len(s)

  def answer(self):
    return ''.join(self.out)


class SimReader(object):
  def __init__(self, conn):
    self.conn = conn
    self.closed = False

  def readline(self, n=-1):
    c = self.conn
    while '\n' not in c.buf and (n < 0 or len(c.buf) < n):
      p = c.arrive()
      if not p:
        break
      c.buf += p
    i = c.buf.find('\n') + 1
    if i == 0:
      i = len(c.buf)
    if n >= 0:
      i = min(i, n)
    s, c.buf = c.buf[:i], c.buf[i:]
    return s

  def read(self, n=-1):
    c = self.conn
    while n < 0 or len(c.buf) < n:
      p = c.arrive()
      if not p:
        break
      c.buf += p
    if n < 0:
      n = len(c.buf)
    s, c.buf = c.buf[:n], c.buf[n:]
    return s

  def close(self):
    self.closed = True


class SimWriter(object):
  def __init__(self, conn):
    self.conn = conn
    self.closed = False

  def write(self, s):
    if isinstance(s, unicode):
      s = s.encode('ascii')     # as a socket does
    if not isinstance(s, str):
      raise TypeError('must be string or buffer')
    for i in range(0, len(s), 4096):
      self.conn.deliver(s[i:i + 4096])

  def flush(self):
    pass

  def close(self):
    self.closed = True


class SimListener(object):
  def __init__(self, net):
    self.net = net
    self.timeout = None
    self.open = True

  def settimeout(self, t):
    self.timeout = t

  def gettimeout(self):
    return self.timeout

  def setsockopt(self, *a):
    pass

  def bind(self, addr):
    if self.net.bind_fault:
      self.net.fault('bind')
      raise real_socket.error(errno.EADDRINUSE, 'Address already in use')
    self.addr = addr
    self.net.bound = addr

  def listen(self, n):
    self.net.listening = True

  def getsockname(self):
    return ('0.0.0.0', self.addr[1])

  def fileno(self):
    return 77

  def accept(self):
    net = self.net
    ev = net.peek()
    if ev is None:
      raise KeyboardInterrupt()
    if 'req' in ev:
      net.pop()
      c = SimConn(net, ev)
      net.conns.append(c)
      return c, ('10.0.0.1', 40000 + len(net.conns))
    if 'gone' in ev:
      net.fault('accept_timeout')
      ev['gone'] -= 1
      if ev['gone'] <= 0:
        net.pop()
      if self.timeout is None:
        raise HarnessError('accept would block forever')
      net.clock.advance(self.timeout)
      raise real_socket.timeout('timed out')
    if 'aborted' in ev:
      net.pop()
      net.fault('accept_error')
      raise real_socket.error(errno.ECONNABORTED,
                              'Software caused connection abort')
    net.pop()
    if self.timeout is None:
      raise HarnessError('accept would block forever')
    net.clock.advance(self.timeout)
    raise real_socket.timeout('timed out')

  def close(self):
    self.open = False


class SimSocketModule(object):
  error = real_socket.error
  timeout = real_socket.timeout
  AF_INET = real_socket.AF_INET
  SOCK_STREAM = real_socket.SOCK_STREAM
  SOCK_DGRAM = real_socket.SOCK_DGRAM
  SOL_SOCKET = real_socket.SOL_SOCKET
  SO_REUSEADDR = real_socket.SO_REUSEADDR
  SHUT_WR = real_socket.SHUT_WR
  IPPROTO_TCP = real_socket.IPPROTO_TCP
  TCP_NODELAY = real_socket.TCP_NODELAY

  def __init__(self, net):
    self.net = net

  def socket(self, *a):
    return SimListener(self.net)

  def getfqdn(self, host=''):
    return 'localhost'


class SimSelectModule(object):
  error = real_select.error

  def __init__(self, net):
    self.net = net

  def select(self, r, w, e, timeout=None):
    net = self.net
    net.polls += 1
    if net.polls > 100000:
      raise HarnessError('server never stops')
    ev = net.peek()
    if ev is None:
      raise KeyboardInterrupt()
    if 'idle' in ev:
      ev['idle'] -= 1
      if ev['idle'] <= 0:
        net.pop()
      net.clock.advance(timeout or 0.5)
      return [], [], []
    if 'eintr' in ev:
      net.pop()
      net.fault('eintr')
      raise real_select.error(errno.EINTR, 'Interrupted system call')
    return list(r), [], []


class Net(object):
  """Installed for the length of one server process."""

  def __init__(self, ctx, clock, script, bind_fault=False):
    self.ctx = ctx
    self.clock = clock
    self.events = [dict(e) for e in script]
    self.bind_fault = bind_fault
    self.conns = []
    self.polls = 0
    self.bound = None
    self.listening = False
    self.last = []

  def peek(self):
    return self.events[0] if self.events else None

  def pop(self):
    return self.events.pop(0)

  def fault(self, kind):
    self.ctx.fault(kind)

  def note(self, what):
    self.last.append(what)

  def __enter__(self):
    self.saved = (SocketServer.socket, SocketServer.select,
                  BaseHTTPServer.socket)
    s = SimSocketModule(self)
    SocketServer.socket = s
    BaseHTTPServer.socket = s
    SocketServer.select = SimSelectModule(self)
    return self

  def __exit__(self, *a):
    (SocketServer.socket, SocketServer.select,
     BaseHTTPServer.socket) = self.saved


class Answer(object):
  """A parsed HTTP answer; complete says whether it is one."""

  def __init__(self, data):
    self.data = data
    self.complete = False
    self.status = None
    self.headers = {}
    self.body = ''
    head, sep, body = data.partition('\r\n\r\n')
    if not sep:
      return
    lines = head.split('\r\n')
    p = lines[0].split(' ', 2)
    if len(p) < 2 or not p[0].startswith('HTTP/1.') or not p[1].isdigit():
      return
    self.status = int(p[1])
    for l in lines[1:]:
      k, s, v = l.partition(':')
      if not s or '\n' in l:
        return
      self.headers[k.strip().lower()] = v.strip()
    self.body = body
    n = self.headers.get('content-length')
    if n is not None and (not n.isdigit() or int(n) != len(body)):
      return
    self.complete = True
