# -*- coding: utf-8 -*-
"""Storage damage: byte-level and record-level corruption of feed files and
archives.  Every operation is [name, file selector, seed]; pure functions."""
import struct

import model
from core import Rng, u8, uni

WEIRD = ['', ' ', '-1', '0', '1', '2', '3', '4', '9999999999999999999999',
         '1e400', '1e5', 'nan', 'inf', '-inf', '1.5', '.', '-', '+1', '0x10',
         '1_0', '\xd9\xa3', '\xef\xbc\x92\xef\xbc\x90\xef\xbc\x91\xef\xbc\x94'
         '\xef\xbc\x90\xef\xbc\x95\xef\xbc\x90\xef\xbc\x91', '20140230',
         '00000000', '2014-05-01', '20140501', '99999999', '20141301',
         '24:61:00', '7:00', '07:00:00', '99:99:99', '-1:00:00', '1:2:3',
         '07:00:00 ', '\xe9', '\xff\xfe', '\xed\xa0\x80', 'None', 'True',
         '%s', '%(x)s', '{0}', "'", "'';--", '\\', 'http://', 'http://[',
         'http://a b', 'ftp://x', 'FFFFFF', 'GGGGGG', '12345', 'x' * 300,
         'a@b', 'a@b.com', '\xc2\xa0', '\xe2\x80\xa8', '\t', 'America/Nowhere',
         '91', '-91', '181', '1,5', 'zz', 'en', 'USD', 'XXX', '\xf0\x9f\x9a\x8c',
         '00:00:00', '1e-7', '89.99999', '0.0', '-0', '1e', '--', '\x1f',
         '\x7f', 'S0', 'T0', 'R0', 'C0']


def q(b):
  """One CSV cell."""
  if ',' in b or '"' in b or '\n' in b or '\r' in b or b[:1] == ' ':
    return '"' + b.replace('"', '""') + '"'
  return b


def rows_of(text):
  return model.parse_csv(text)


BYTE_OPS = ['flip', 'delete', 'insert', 'truncate', 'dup', 'zero', 'splice',
            'random', 'cr', 'quote', 'utf16', 'utf16odd', 'utf16be', 'latin1',
            'bom', 'bom2', 'empty', 'headeronly', 'longfield', 'blank',
            'null', 'onlybom', 'crlfmix', 'ragged', 'noeol', 'bombyte']
CELL_OPS = ['cell', 'cell', 'cell', 'cell', 'column', 'dropcol', 'dupcol',
            'dropcell', 'addcell', 'header', 'blankheader', 'droprow',
            'duprow', 'swaprows', 'swapcells', 'blankline', 'renamecol',
            'spaceheader', 'newcol']


def apply_text(op, data, rng, others):
  """New contents of one member file."""
  n = len(data)
  a = rng.below(n + 1)
  b = min(n, a + rng.below(12) + 1)
  if op == 'flip' and n:
    i = rng.below(n)
    return data[:i] + chr(ord(data[i]) ^ (1 << rng.below(8))) + data[i + 1:]
  if op == 'delete':
    return data[:a] + data[b:]
  if op == 'insert':
    return data[:a] + ''.join(chr(rng.below(256))
                              for _ in range(1 + rng.below(6))) + data[a:]
  if op == 'truncate':
    return data[:a]
  if op == 'dup':
    b = min(n, a + rng.below(200))
    return data[:b] + data[a:b] + data[b:]
  if op == 'zero':
    return data[:a] + '\0' * (b - a) + data[b:]
  if op == 'splice':
    o = others[rng.below(len(others))]
    c = rng.below(len(o) + 1)
    return data[:a] + o[c:c + rng.below(120)] + data[b:]
  if op == 'random':
    return ''.join(chr(rng.below(256)) for _ in range(rng.below(300)))
  if op == 'cr':
    return data[:a] + '\r' + data[a:]
  if op == 'quote':
    return data[:a] + '"' + data[a:]
  if op in ('utf16', 'utf16odd', 'utf16be'):
    t = data.decode('utf-8', 'replace')
    if op == 'utf16be':
      out = '\xfe\xff' + t.encode('utf-16-be')
    else:
      out = '\xff\xfe' + t.encode('utf-16-le')
    return out[:-1] if op == 'utf16odd' else out
  if op == 'latin1':
    return data.decode('utf-8', 'replace').encode('latin-1', 'replace') + '\xe9'
  if op == 'bom':
    return '\xef\xbb\xbf' + data
  if op == 'bom2':
    return '\xef\xbb\xbf\xef\xbb\xbf' + data
  if op == 'bombyte':
    # part of a byte order mark is no byte order mark
    return rng.choice(['\xbb', '\xbf', '\xef\xbb', '\xbf\xbb',
                       '\xef\xbb\xbf\xbf', '\xef\xbb\xbf\xef']) + data
  if op == 'empty':
    return ''
  if op == 'headeronly':
    return data.split('\n', 1)[0] + '\n'
  if op == 'longfield':
    return data[:a] + 'x' * 140000 + data[a:]
  if op == 'blank':
    return rng.choice(['\n', '\r\n', ' ', '\n\n\n', ',', ',,\n', '"', '\t'])
  if op == 'null':
    return data[:a] + '\0' + data[a:]
  if op == 'onlybom':
    return '\xef\xbb\xbf'
  if op == 'crlfmix':
    parts = data.split('\n')
    return ''.join(p + rng.choice(['\n', '\r\n', '\r\r\n', '\n\n'])
                   for p in parts)
  if op == 'ragged':
    parts = data.split('\n')
    i = rng.below(len(parts))
    parts[i] = rng.choice([parts[i] + ',' * (1 + rng.below(4)),
                           parts[i].rsplit(',', 1)[0], ',' * rng.below(9)])
    return '\n'.join(parts)
  if op == 'noeol':
    return data.rstrip('\r\n')
  # record level
  try:
    rows = rows_of(data)
  except Exception:
    return data
  rows = [[u8(c) for c in r] for r in rows]
  if not rows:
    return data
  i = rng.below(len(rows))
  body = 1 + rng.below(max(1, len(rows) - 1))
  body = min(body, len(rows) - 1)
  w = len(rows[0])
  j = rng.below(max(1, w))
  if op == 'cell' and len(rows[body]) > j:
    rows[body][j] = rng.choice(WEIRD)
  elif op == 'column':
    v = rng.choice(WEIRD)
    for r in rows[1:]:
      if len(r) > j:
        r[j] = v
  elif op == 'dropcol':
    for r in rows:
      if len(r) > j:
        del r[j]
  elif op == 'dupcol':
    for r in rows:
      if len(r) > j:
        r.append(r[j])
  elif op == 'dropcell' and rows[i]:
    del rows[i][rng.below(len(rows[i]))]
  elif op == 'addcell':
    rows[i].insert(rng.below(len(rows[i]) + 1), rng.choice(WEIRD))
  elif op == 'header':
    del rows[0]
  elif op == 'blankheader' and len(rows[0]) > j:
    rows[0][j] = rng.choice(['', ' '])
  elif op == 'spaceheader' and len(rows[0]) > j:
    rows[0][j] = rng.choice([' %s', '%s ', '%s\t']) % rows[0][j]
  elif op == 'renamecol' and len(rows[0]) > j:
    rows[0][j] = rng.choice(['x', 'stop_id', 'shape_id', '\xc3\xa9', '\xff',
                             'stop_lat', '_lat', 'trip_id', '__class__',
                             'schedule', '_schedule', 'date_exceptions',
                             'day_of_week', 'points', 'rule_list', 'trips',
                             'service_period', 'pattern_id', 'trip_index',
                             'rules', 'headways', 'keys', 'distance',
                             'sequence', 'max_distance', 'stop', '_headways',
                             'feed_info', 'shape', 'agency'])
  elif op == 'newcol':
    name = rng.choice(['x', 'service_period', 'pattern_id', 'trip_index',
                       'rules', 'trips', 'schedule', '_schedule', 'points',
                       'iteritems', 'Validate', '_trips', '__dict__',
                       'stop_times', 'stop_sequence', 'route', 'headsign'])
    for k, r in enumerate(rows):
      r.insert(min(j, len(r)), rng.choice(WEIRD + ['', '', '']) if k else name)
  elif op == 'droprow':
    del rows[i]
  elif op == 'duprow':
    rows.insert(rng.below(len(rows) + 1), list(rows[i]))
  elif op == 'swaprows':
    k = rng.below(len(rows))
    rows[i], rows[k] = rows[k], rows[i]
  elif op == 'swapcells' and rows[body]:
    k, l = rng.below(len(rows[body])), rng.below(len(rows[body]))
    rows[body][k], rows[body][l] = rows[body][l], rows[body][k]
  elif op == 'blankline':
    rows.insert(i, [])
  return '\r\n'.join(','.join(q(c) for c in r) for r in rows) + '\r\n'


ZIP_OPS = ['zflip', 'zflip', 'zflip', 'ztruncate', 'zdelete', 'zinsert',
           'zzero', 'zcrc', 'zmethod', 'zencrypt', 'ztail', 'zcut', 'zempty',
           'zgarbage']


def apply_zip(op, data, rng):
  n = len(data)
  a = rng.below(n + 1)
  b = min(n, a + rng.below(40) + 1)
  if op == 'zflip' and n:
    i = rng.below(n)
    return data[:i] + chr(ord(data[i]) ^ (1 << rng.below(8))) + data[i + 1:]
  if op == 'ztruncate':
    return data[:a]
  if op == 'zdelete':
    return data[:a] + data[b:]
  if op == 'zinsert':
    return data[:a] + 'PK' + data[a:]
  if op == 'zzero':
    return data[:a] + '\0' * (b - a) + data[b:]
  if op == 'ztail':
    return data + 'x' * rng.below(100)
  if op == 'zcut':
    return data[rng.below(60):]
  if op == 'zempty':
    return ''
  if op == 'zgarbage':
    return ''.join(chr(rng.below(256)) for _ in range(rng.below(200)))
  # central directory entries
  pos = []
  i = data.find('PK\x01\x02')
  while i >= 0:
    pos.append(i)
    i = data.find('PK\x01\x02', i + 4)
  if not pos:
    return data
  p = pos[rng.below(len(pos))]
  if op == 'zcrc':
    return data[:p + 16] + struct.pack('<L', rng.below(1 << 30)) + data[p + 20:]
  if op == 'zmethod':
    return data[:p + 10] + struct.pack('<H', rng.choice([1, 6, 9, 12, 14, 99])) \
        + data[p + 12:]
  if op == 'zencrypt':
    return data[:p + 8] + struct.pack('<H', 1) + data[p + 10:]
  return data
