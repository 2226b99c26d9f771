# -*- coding: utf-8 -*-
"""Core of the deterministic simulator (runs under Jython 2.7).

One run = one trace (a JSON value).  gen(rng) draws a trace from the seeded
PRNG; execute(trace) is a pure function of the trace and of the code in the
repository.  Nothing in execute() draws from anything but PRNGs derived from
integers stored in the trace.
"""
import hashlib
import json


class SimCrash(BaseException):
  """The simulated process died here (only durable state survives)."""


class Violation(Exception):
  """The property under check is broken in this run."""

  def __init__(self, code, detail=''):
    Exception.__init__(self, code)
    self.code = code
    if isinstance(detail, unicode):
      detail = detail.encode('utf-8')
    elif not isinstance(detail, str):
      detail = repr(detail)
    self.detail = detail


class HarnessError(Exception):
  """The harness itself is wrong; never reported as a violation."""


MASK = (1 << 64) - 1


def seed_of(*parts):
  h = hashlib.sha256('/'.join([str(p) for p in parts])).hexdigest()
  return int(h[:16], 16)


class Rng(object):
  """splitmix64; independent of the interpreter's random module."""

  def __init__(self, seed):
    self.s = int(seed) & MASK

  def bits(self):
    self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
    z = self.s
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
    return z ^ (z >> 31)

  def below(self, n):
    """int in [0, n)"""
    if n <= 0:
      return 0
    return int(self.bits() % n)

  def between(self, a, b):
    """int in [a, b]"""
    return a + self.below(b - a + 1)

  def chance(self, num, den=100):
    return self.below(den) < num

  def choice(self, seq):
    return seq[self.below(len(seq))]

  def weighted(self, pairs):
    total = sum(w for (_, w) in pairs)
    x = self.below(total)
    for v, w in pairs:
      if x < w:
        return v
      x -= w
    raise HarnessError('weighted')

  def shuffle(self, lst):
    for i in range(len(lst) - 1, 0, -1):
      j = self.below(i + 1)
      lst[i], lst[j] = lst[j], lst[i]
    return lst

  def sample(self, seq, n):
    seq = list(seq)
    self.shuffle(seq)
    return seq[:n]

  def sub(self, name):
    return Rng(seed_of(self.bits(), name))

  def seed(self):
    return self.below(1 << 30)


class Ctx(object):
  """Per-run recorder: event log, fault counters, reach probes."""

  def __init__(self):
    self.log = []
    self.faults = {}
    self.probes = {}
    self.simtime = 0.0     # simulated seconds covered
    self.steps = 0
    self.known = []        # (finding key) hits of listed findings
    self.findings = ()     # keys listed in known_findings for this property

  def ev(self, *parts):
    """Append an event.  Never draws randomness, never reads a clock."""
    out = []
    for p in parts:
      if isinstance(p, unicode):
        out.append(p.encode('utf-8'))
      elif isinstance(p, str):
        out.append(p)
      else:
        out.append(canon(p))
    self.log.append('|'.join(out))

  def fault(self, kind, n=1):
    self.faults[kind] = self.faults.get(kind, 0) + n

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def digest(self):
    h = hashlib.sha256()
    for line in self.log:
      h.update(line)
      h.update('\n')
    return h.hexdigest()[:16]

  def check(self, cond, code, detail=''):
    if not cond:
      if callable(detail):
        detail = detail()
      self.violate(code, detail)

  def violate(self, code, detail=''):
    """Report, unless this exact code is a listed finding of the tree."""
    if callable(detail):
      detail = detail()
    if code in self.findings:
      self.known.append(code)
      raise KnownFinding(code)
    raise Violation(code, detail)


class KnownFinding(Exception):
  """A listed finding showed up; the run ends here and is counted."""


def canon(v):
  """Deterministic text for nested plain values."""
  if isinstance(v, unicode):
    return repr(v.encode('utf-8'))
  if isinstance(v, str):
    return repr(v)
  if isinstance(v, bool) or v is None:
    return repr(v)
  if isinstance(v, (int, long)):
    return str(v)
  if isinstance(v, float):
    return '%.9g' % v
  if isinstance(v, (list, tuple)):
    return '[' + ','.join(canon(x) for x in v) + ']'
  if isinstance(v, dict):
    return '{' + ','.join(sorted(canon(k) + ':' + canon(x)
                                 for k, x in v.items())) + '}'
  if isinstance(v, (set, frozenset)):
    return '{' + ','.join(sorted(canon(x) for x in v)) + '}'
  return '<%s>' % type(v).__name__


def u8(s):
  """Text as utf-8 bytes."""
  if isinstance(s, unicode):
    return s.encode('utf-8')
  return s


def uni(s):
  if isinstance(s, unicode):
    return s
  if isinstance(s, str):
    return s.decode('utf-8', 'replace')
  return unicode(s)


def loads(text):
  return json.loads(text)


def dumps(v):
  return json.dumps(v, sort_keys=True)
