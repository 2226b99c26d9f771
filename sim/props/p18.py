# -*- coding: utf-8 -*-
"""The merge program: all or nothing, and a results page which is true."""
import re

import damage
import model
from core import Rng, canon, uni, u8
from world import World
import cli
import drive
import merging
from drive import transitfeed
from props import p16, p17
import merge

SHRINK = ('feeds', 'ops', 'args')
SHRINK_KEYS = ()
NAMES = ['a.zip', u'caf\xe9.zip', 'a b.zip', 'x<y>&.zip', 'sub/b.zip']
TITLES = {'agency': 'Agencies', 'stops': 'Stops', 'routes': 'Routes',
          'fare_attributes': 'Fares', 'shapes': 'Shapes'}


def gen(rng, tier, index):
  feeds = merging.gen_feeds(rng)[:2]
  if rng.chance(25):
    merging.shift_days(feeds[1], -rng.choice([100, 170, 200]))
  ops = []
  if rng.chance(25):
    for _ in range(rng.choice([1, 1, 3])):
      which = rng.below(2)
      ops.append([which, rng.choice(damage.CELL_OPS),
                  rng.choice(sorted(feeds[which])), rng.seed()])
  args = []
  if rng.chance(40):
    args.append(['-m'])
  if rng.chance(30):
    args.append(['--largest_stop_distance', rng.choice(['0.5', '50', '1000'])])
  if rng.chance(30):
    args.append(['--largest_shape_distance', rng.choice(['0.5', '50', '400'])])
  if rng.chance(30):
    args.append(['--cutoff_date', rng.choice(['20140601', '20140801',
                                              '20150101', '20141101'])])
  if rng.chance(40):
    args.append(['--no_browser'])
  if rng.chance(30):
    args.append(['--html_output_path', rng.choice([
        '/sim/out/page.html', 'r.html', '/sim/out/x y.html'])])
  return {'feeds': feeds, 'ops': ops, 'args': args,
          'names': [rng.choice(NAMES), rng.choice(NAMES), rng.choice(NAMES)],
          'out_is': rng.weighted([('new', 5), ('old', 5), ('a', 2), ('b', 1)]),
          'missing': rng.weighted([(0, 20), (1, 1), (2, 1), (3, 1)]),
          'net': rng.choice(['same', 'newer', 'fail']),
          'salt': 1}


def option(trace, name, default):
  for a in trace['args']:
    if a[0] == name:
      return a[1]
  return default


def run(trace, ctx):
  net = {'same': {'body': 'version=' + transitfeed.__version__},
         'newer': {'body': 'version=100.0.1'},
         'fail': {'fail': 'timeout', 'kind': 'timeout'}}[trace['net']]
  w = World(ctx, net_plan=[net])
  with w:
    w.fs.mkdir('/sim/out')
    w.fs.mkdir('/sim/in')
    w.fs.mkdir('/sim/in/0/sub')
    w.fs.mkdir('/sim/in/1/sub')
    w.fs.mkdir('/sim/in/new')
    paths = []
    for i, f in enumerate(trace['feeds']):
      files = model.feed_files(f)
      names = sorted(files)
      for which, op, table, seed in trace['ops']:
        n = table + '.txt'
        if which == i and n in files:
          files[n] = damage.apply_text(op, files[n], Rng(seed),
                                       [files[x] for x in names])
      p = u8('/sim/in/%d/%s' % (i, uni(trace['names'][i])))
      if i + 1 != trace['missing']:
        w.fs.put(p, model.zip_bytes(sorted(files.items()), 8))
      paths.append(p)
    out = u8(u'/sim/in/new/%s' % uni(trace['names'][2]).replace(u'/', u'_'))
    if trace['out_is'] == 'old':
      w.fs.put(out, 'old archive')
    elif trace['out_is'] in 'ab':
      out = paths['ab'.index(trace['out_is'])]
    page = option(trace, '--html_output_path', 'merge-results.html')
    page = page if page.startswith('/') else '/sim/' + page
    w.fs.put(page, 'old page')
    argv = ['merge.py'] + [x for a in trace['args'] for x in a] + paths
    if trace['missing'] != 3:
      argv.append(out)
    before = dict(w.fs.snapshot())
    r = cli.run_main(w, merge.main, [u8(x) for x in argv])
    after = dict(w.fs.snapshot())
    ctx.steps += 1
    want = reference(trace, paths, out, before)
    judge(w, trace, ctx, r, want, before, after, paths, out, page)


def reference(trace, paths, out, before):
  """The same merge through the library, in a world of its own."""
  w = World(p_ctx())
  with w:
    for p in paths:
      if p in before:
        w.fs.put(p, before[p])
    if trace['missing'] == 3:
      return 'usage', None, None
    scheds = []
    for p in paths:
      rec = drive.Recorder()
      s, rec = drive.load(w, p, rec=rec, extra=True)
      errors = [i for i in rec.items if i['type'] == 0]
      if errors:
        return 'errors', p, errors
      scheds.append(s)
    ctx = p_ctx()
    m = p16.Merge(w, trace['feeds'][0], trace['feeds'][1],
                  {'memory_db': True, 'salt': 1,
                   'stop_limit': float(option(
                       trace, '--largest_stop_distance', 10)),
                   'shape_limit': float(option(
                       trace, '--largest_shape_distance', 10))}, ctx)
    m.setup(*scheds)
    cut = option(trace, '--cutoff_date', None)
    if cut:
      m.fm.GetMerger(merge.ServicePeriodMerger).DisjoinCalendars(cut)
    ok = m.fm.MergeSchedules()
    m.maps()
    if ok:
      m.sm.WriteGoogleTransitFeed('/sim/ref.zip')
      m.bytes = w.fs.get('/sim/ref.zip')
    return 'merged' if ok else 'refused', m, None


class p_ctx(object):
  """A context which records nothing (for the reference run)."""
  steps = 0
  simtime = 0
  sig = ''

  def __init__(self):
    self.faults = {}

  def ev(self, *a):
    pass

  probe = fault = ev

  def check(self, *a):
    pass

  violate = check


def judge(w, trace, ctx, r, want, before, after, paths, out, page):
  kind, m, errors = want
  ctx.probe('%s:%s' % (kind, trace['out_is']))
  changed = sorted(p for p in set(before) | set(after)
                   if before.get(p) != after.get(p))
  ctx.ev(canon([kind, r.status, changed]))
  ctx.sig = canon([kind, r.status, trace['out_is'], trace['net'],
                   sorted(a[0] for a in trace['args'])])
  ctx.check(r.status != 127, 'crash:' + crash_line(after), lambda: canon(
      [uni(r.err[-500:])]))
  allowed = [] if kind in ('usage', 'errors') else \
      [page] if kind == 'refused' else [page, out]
  extra = [p for p in changed if p not in allowed]
  ctx.check(not extra, 'files-changed:%s' % kind, lambda: canon(extra))
  if kind == 'usage':
    ctx.check(r.status == 2, 'usage-status', lambda: canon(r.status))
    return
  if kind == 'errors':
    ctx.check(r.status == 1, 'errors-status', lambda: canon([r.status]))
    ctx.check(u8(m) in u8(r.err), 'errors-path', lambda: canon(uni(r.err)))
    ctx.check('without any errors' in r.err, 'errors-text')
    return
  ctx.check(r.status == 0, 'status', lambda: canon([r.status,
                                                    uni(r.err[-300:])]))
  html = after.get(page, '')
  ctx.check(html != 'old page', 'no-page')
  try:
    text = html.decode('utf-8')
  except UnicodeDecodeError:
    ctx.violate('page-not-utf8')
    return
  if kind == 'merged':
    try:
      got = model.read_zip_feed(after[out])
    except Exception as e:     # pylint: disable=broad-except
      ctx.violate('archive-unreadable', canon(repr(e)))
      return
    d = model.diff_meaning(model.meaning(model.read_zip_feed(m.bytes)),
                           model.meaning(got))
    ctx.check(d is None, 'archive:%s-%s' % (d or ('', '', ''))[:2], canon(d))
  ctx.check(('Merged feed created' in text) == (kind == 'merged'),
            'page-created:' + kind)
  shown = unescape(text)
  need = list(paths) + ([out] if kind == 'merged' else [])
  for p in need:
    ctx.check(u'<code>%s</code>' % escape(uni(p)) in text, 'page-path',
              lambda: canon([uni(p)]))
  n = {0: 0, 1: 0, 2: 0}
  for i in m.rec.items:
    n[i['type']] += 1
  if trace['net'] == 'newer':
    n[2] += 1
  elif trace['net'] == 'fail':
    n[2] += 1
  lines = []
  if n[2]:
    lines.append('notices: %d' % n[2])
  if n[0]:
    lines.append('errors: %d' % n[0])
  if n[1]:
    lines.append('warnings: %d' % n[1])
  summary = '<br>'.join(lines) or 'feeds merged successfully'
  ctx.check('>%s</span>' % summary in text, 'page-summary',
            lambda: canon([summary, re.findall(
                r'<p><span.*?</p>', text, re.S)[:2]]))
  for i in m.rec.items:
    if i['type'] == 2:
      continue
    ctx.check(message(i) in shown, 'page-message:' + i['cls'],
              lambda: canon([message(i)]))
  for bad in re.findall(u'<(?!/?(?:html|head|meta|title|style|body|h[1-3]|p|'
                        u'code|table|tr|th|td|span|ol|ul|li|br|div|a)[ />])'
                        u'[^>]*>', re.sub(u'(?s)<style>.*</style>', u'',
                                          text)):
    ctx.violate('page-markup', canon([bad]))
  for kind2, title in TITLES.items():
    stats = m.fm.GetMerger(
        getattr(merge, p17.MERGERS[kind2])).GetMergeStats()
    row = '<tr><th class="header">%s</th>' % title + ''.join(
        '\n                  '[:0] + '<td class="header">%d</td>' % x
        for x in stats)
    ctx.check(row in re.sub(r'\s*\n\s*', '', text), 'page-stats:' + kind2,
              lambda: canon([row]))
  browser = '--no_browser' not in [a[0] for a in trace['args']]
  ctx.check(len(w.browser) == (1 if browser else 0), 'browser',
            lambda: canon(w.browser))
  if browser:
    ctx.check(u8(w.browser[0][0]) == 'file://' + page, 'browser-page',
              lambda: canon([w.browser, page]))
  if n[1]:
    ctx.probe('warnings')


def message(i):
  return uni(i['text']).replace(u'\n', u'<br>')


def escape(t):
  return t.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>',
                                                                u'&gt;')


def unescape(t):
  return t.replace(u'&lt;', u'<').replace(u'&gt;', u'>').replace(
      u'&quot;', u'"').replace(u'&#39;', u"'").replace(u'&amp;', u'&')


def crash_line(after):
  for p, data in after.items():
    if p.endswith('transitfeedcrash.txt'):
      m = re.findall(r'^(\w+(?:Error|Exception)): ', data, re.M)
      return m[-1] if m else 'unknown'
  return ''
