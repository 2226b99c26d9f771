# -*- coding: utf-8 -*-
"""Whole programs inside the simulated world: main() under the crash handler,
as the command line starts them."""
import sys

from core import SimCrash
import world                      # noqa
import transitfeed
from transitfeed import util as tf_util


class Exit(object):
  def __init__(self):
    self.status = None
    self.exc = None
    self.out = ''
    self.err = ''


def run_main(w, main, argv, handler=True):
  """Status as the operating system would see it, and the output."""
  r = Exit()
  out0, err0 = len(w.stdout.parts), len(w.stderr.parts)
  old = sys.argv
  sys.argv = list(argv)
  try:
    try:
      if handler:
        tf_util.RunWithCrashHandler(main)
        r.status = 0
      else:
        r.status = main() or 0
    except SystemExit as e:
      c = e.code
      r.status = 0 if c is None else c if isinstance(c, int) else 1
    except SimCrash:
      raise
    except KeyboardInterrupt:
      r.status = 130
    except Exception as e:      # python itself exits with 1
      r.status = 1
      r.exc = e
  finally:
    sys.argv = old
  r.out = ''.join(w.stdout.parts[out0:])
  r.err = ''.join(w.stderr.parts[err0:])
  return r


def newer(text, current):
  """Model of the update check: does this page announce a newer version?
  -> None (unreadable), or the newest version, or False."""
  i = 0
  while True:
    i = text.find('version=', i)
    if i < 0:
      return None
    j = i + 8
    parts = ['']
    for c in text[j:]:
      if c in '0123456789':
        parts[-1] += c
      elif c == '.' and len(parts) < 3 and parts[-1]:
        parts.append('')
      else:
        break
    if len(parts) == 3 and parts[2]:
      v = [int(x) for x in parts]
      cur = [int(x) for x in current.split('.')]
      return '.'.join(parts) if v > cur else False
    i = j
