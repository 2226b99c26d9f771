# -*- coding: utf-8 -*-
"""Upgrading translations: in every language every text reads as before."""
import model
from core import SimCrash, canon, uni, u8
from world import World
import cli
import drive
import upgrade_translations

SHRINK = ('feed', 'words', 'spoil', 'faults')
SHRINK_KEYS = ('feed',)
SUFFIXES = (u'_name', u'_desc', u'_headsign', u'_url', u'_text',
            u'_abbreviation', u'signposted_as', u'instructions')
IDS = {'agency': (u'agency_id', None), 'stops': (u'stop_id', None),
       'routes': (u'route_id', None), 'trips': (u'trip_id', None),
       'stop_times': (u'trip_id', u'stop_sequence'), 'feed_info': (None, None),
       'calendar': (u'service_id', None), 'pathways': (u'pathway_id', None),
       'levels': (u'level_id', None), 'attributions': (u'attribution_id',
                                                       None)}
LANGS = [u'en', u'fr', u'de', u'zh-Hant']
SRC, DST = '/sim/feed', '/sim/feed_upgraded'


def translatable(c):
  return c.endswith(SUFFIXES)


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True, trips=(2, 8))
  if rng.chance(50):
    feed['pathways'] = {'cols': [u'pathway_id', u'from_stop_id', u'to_stop_id',
                                 u'signposted_as', u'reversed_signposted_as'],
                        'rows': [[u'p%d' % i, u'S0', u'S1',
                                  rng.choice([u'To trains', u'Exit', u'']),
                                  rng.choice([u'Exit', u''])]
                                 for i in range(rng.below(4))]}
  if rng.chance(40):
    feed['attributions'] = {'cols': [u'attribution_id', u'organization_name'],
                            'rows': [[u'at%d' % i, u'Org %d' % i]
                                     for i in range(rng.below(3))]}
  if rng.chance(50) and u'trip_headsign' in feed['trips']['cols']:
    c = model.col(feed['trips'], 'trip_headsign')
    signs = [rng.choice(feed['trips']['rows'])[c] for _ in range(2)]
    for r in feed['trips']['rows']:
      if rng.chance(60):
        r[c] = rng.choice(signs)
  where = rng.weighted([('feed_info', 5), ('agency', 4), ('none', 1)])
  main = rng.choice(LANGS[:2])
  for t, c in (('agency', u'agency_lang'), ('feed_info', u'feed_lang')):
    if t in feed and c in feed[t]['cols']:
      for r in feed[t]['rows']:
        r[model.col(feed[t], c)] = main if t == where or where == 'agency' \
            else u''
  if where == 'feed_info' and 'feed_info' not in feed:
    feed['feed_info'] = {'cols': [u'feed_publisher_name',
                                  u'feed_publisher_url', u'feed_lang'],
                         'rows': [[u'Pub', u'http://pub.example.com', main]]}
  # what is translated: texts of the feed, or names put in place of them
  texts = sorted(set(
      r[i] for t in feed.values() for i, c in enumerate(t['cols'])
      if translatable(c) for r in t['rows'] if r[i]))
  words, used = [], set()
  for text in texts:
    if not rng.chance(55):
      continue
    trans_id = text
    if rng.chance(30):      # the feed holds a key, the text is elsewhere
      trans_id = u'key-%d' % len(words)
    here = text
    if rng.chance(20) and words and trans_id != text:
      here = rng.choice(words)[1]     # depends on the context
    tr = [[l, rng.choice([u'%s (%s)' % (here, l), u'w%d %s' % (len(words), l),
                          here])] for l in LANGS if l != main and
          rng.chance(60)]
    words.append([trans_id, here, tr, text])
  spoil = []
  for t in sorted(feed) + ['translations']:
    if rng.chance(30):
      spoil.append([t, rng.choice(['bom', 'crlf', 'quote', 'short', 'long',
                                   'blank', 'no_eol'])])
  faults = []
  if rng.chance(25):
    op = rng.choice(['write', 'write', 'openw', 'close', 'read', 'open',
                     'listdir'])
    faults.append({'op': op, 'nth': 1 + rng.below(6), 'frac': rng.below(101),
                   'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH'])
                   if op == 'write' else 'EIO'})
  return {'feed': feed, 'words': words, 'main': main, 'spoil': spoil,
          'faults': faults, 'buffer': rng.choice([0, 64, 8192]),
          'dest': rng.weighted([('default', 3), ('given', 4), ('same', 1),
                                ('dot', 1), ('slash', 1)]),
          'orphan': rng.chance(4), 'seed': rng.seed(),
          'others': rng.chance(40)}


def apply_words(trace):
  """The feed with keys in place of texts, and the old translations."""
  feed = model.copy_feed(trace['feed'])
  rows = []
  for trans_id, here, tr, text in trace['words']:
    if trans_id != text:
      for t in feed.values():
        for i, c in enumerate(t['cols']):
          if translatable(c):
            for r in t['rows']:
              if r[i] == text:
                r[i] = trans_id
    rows.append([trans_id, trace['main'], here])
    for l, v in tr:
      rows.append([trans_id, l, v])
  if trace['orphan'] and rows:
    rows.append([u'nowhere', u'xx', u'alone'])
  return feed, {'cols': [u'trans_id', u'lang', u'translation'], 'rows': rows}


def file_of(t, ways, rng):
  t = {'cols': t['cols'], 'rows': [list(r) for r in t['rows']]}
  if 'short' in ways:
    for r in t['rows']:
      while len(r) > 1 and r[-1] == u'':
        r.pop()
  if 'long' in ways:
    for r in t['rows']:
      if rng.chance(40):
        r.append(u'too much')
  b = model.table_bytes(t, eol='\r\n' if 'crlf' in ways else '\n',
                        bom='bom' in ways, quote='quote' in ways,
                        trailing='no_eol' not in ways)
  if 'blank' in ways:
    b += '\r\n' if 'crlf' in ways else '\n'
  return b


def feed_language(feed):
  for t, c in (('feed_info', u'feed_lang'), ('agency', u'agency_lang')):
    for d in model.dicts(feed, t) if t in feed else ():
      if d.get(c):
        return d[c]
  return None


def run(trace, ctx):
  from core import Rng
  feed, old = apply_words(trace)
  rng = Rng(trace['seed'])
  ways = {}
  for t, way in trace['spoil']:
    ways.setdefault(t, []).append(way)
  w = World(ctx, net_plan=[], buffer_size=trace['buffer'])
  ctx.world = w
  with w:
    w.fs.cwd = '/sim'
    w.fs.mkdir(SRC)
    files = {}
    for t in sorted(feed):
      files[t] = file_of(feed[t], ways.get(t, ()), rng)
    files['translations'] = file_of(old, ways.get('translations', ()), rng)
    for t in files:
      w.fs.put(SRC + '/' + t + '.txt', files[t])
    if trace['others']:
      w.fs.put(SRC + '/README', 'not a table')
      w.fs.mkdir(SRC + '/odd.txt')
    before = w.fs.snapshot()
    argv = ['upgrade_translations.py', SRC]
    dest = DST
    if trace['dest'] == 'given':
      dest = '/sim/new/place'
      argv.append(dest)
    elif trace['dest'] in ('same', 'dot', 'slash'):
      dest = SRC
      argv.append({'same': SRC, 'dot': '/sim/./feed', 'slash': SRC + '/'}[
          trace['dest']])
    lang = feed_language(feed)
    sound = lang is not None and all(
        any(r[0] == t and r[1] == lang for r in old['rows'])
        for t in set(r[0] for r in old['rows'])) and dest != SRC
    w.fs.faults = [dict(f) for f in trace['faults']]
    done = sum(ctx.faults.values())
    crashed, r = False, None
    try:
      r = cli.run_main(w, upgrade_translations.main, argv, handler=False)
      w.finalise()
    except SimCrash:
      crashed = True
    w.fs.faults = []
    w.fs.full = False
    w.fs.reboot()
    hit = sum(ctx.faults.values()) > done
    ctx.steps += 1
    info = lambda: canon([argv, trace['spoil'], getattr(r, 'status', None),
                          repr(getattr(r, 'exc', None)),
                          getattr(r, 'out', '')[-500:],
                          getattr(r, 'err', '')[-500:]])
    after = w.fs.snapshot()
    changed = [n for n in set(before) | set(after)
               if before.get(n) != after.get(n) and
               (dest == SRC or not n.startswith(dest + '/'))]
    ctx.check(not changed, 'source-changed' + (
        ':same-directory' if dest == SRC else ''),
        lambda: canon([changed, info()]))
    ctx.check(not w.fs.outside_writes, 'outside',
              lambda: canon(w.fs.outside_writes))
    ok = r is not None and r.status == 0
    if not sound:
      ctx.probe('unsound')
      ctx.check(not ok, 'nonsense-taken', info)
      return
    if not hit:
      ctx.check(ok, 'refused:%s' % type(getattr(r, 'exc', None)).__name__,
                info)
    if not ok:
      ctx.probe('failed')
      r = cli.run_main(w, upgrade_translations.main, argv, handler=False)
      w.finalise()
      ctx.check(r.status == 0, 'refused-afterwards', info)
      ctx.probe('recovered')
    judge(ctx, w, trace, feed, old, files, lang, dest)
    for ws in ways.values():
      for x in ws:
        ctx.probe(x)
  ctx.sig = canon([len(old['rows']), sorted(map(str, trace['spoil'])),
                   trace['dest'], sorted(ctx.faults), sorted(feed)])


def judge(ctx, w, trace, feed, old, files, lang, dest):
  names = sorted(n for n in w.fs.snapshot() if n.startswith(dest + '/'))
  ctx.check(names == sorted(dest + '/' + t + '.txt' for t in files),
            'files', lambda: canon(names))
  words = {}
  for trans_id, l, v in old['rows']:
    words.setdefault(trans_id, {})[l] = v
  new = model.parse_table(w.fs.get(dest + '/translations.txt'))
  ctx.check(new['cols'] == [u'table_name', u'field_name', u'language',
                            u'translation', u'record_id', u'record_sub_id',
                            u'field_value'], 'columns',
            lambda: canon(new['cols']))
  by_id, by_value, every = {}, {}, {}
  seen = set()
  for row in new['rows']:
    d = dict(zip(new['cols'], row))
    k = (d[u'table_name'], d[u'field_name'], d[u'language'])
    ctx.check(d[u'table_name'] in feed and
              d[u'field_name'] in feed[d[u'table_name']]['cols'],
              'translates-nothing', lambda: canon(d))
    ctx.check(tuple(row[:3] + row[4:]) not in seen, 'translated-twice',
              lambda: canon(d))
    seen.add(tuple(row[:3] + row[4:]))
    ctx.check(d[u'language'] != lang, 'translates-into-itself',
              lambda: canon(d))
    v = d[u'translation']
    if d[u'field_value']:
      by_value[k + (d[u'field_value'],)] = v
    elif d[u'record_id']:
      by_id[k + (d[u'record_id'], d[u'record_sub_id'])] = v
    else:
      ctx.check(d[u'table_name'] == 'feed_info', 'without-record',
                lambda: canon(d))
      every[k] = v
  langs = sorted(set(l for x in words.values() for l in x) - set([lang]))
  for t in sorted(feed):
    cols = feed[t]['cols']
    raw = w.fs.get(dest + '/' + t + '.txt')
    if not any(translatable(c) for c in cols):
      ctx.check(raw == files[t], 'copied-table:' + t,
                lambda: canon([t, raw[:300]]))
      continue
    got = model.parse_table(raw)
    if got is not None and got['cols']:
      got['cols'][0] = got['cols'][0].lstrip(u'\ufeff')
    ctx.check(got is not None and got['cols'] == cols, 'columns:' + t,
              lambda: canon([t, got and got['cols'], cols]))
    ctx.check(len(got['rows']) == len(feed[t]['rows']), 'rows:' + t,
              lambda: canon([t, len(got['rows']), len(feed[t]['rows'])]))
    here = dict((c, set(r[i] for r in feed[t]['rows'] if r[i] in words))
                for i, c in enumerate(cols))
    for r0, r1 in zip(feed[t]['rows'], got['rows']):
      d0 = dict(zip(cols, list(r0) + [u''] * len(cols)))
      d1 = dict(zip(cols, list(r1) + [u''] * len(cols)))
      kid, ksub = IDS.get(t, (None, None))
      rid = (d1[kid] if kid else u'', d1[ksub] if ksub else u'')
      for c in cols:
        tr = words.get(d0[c]) if translatable(c) and d0[c] else None
        want = tr[lang] if tr else d0[c]
        ctx.check(d1[c] == want, 'text:%s.%s' % (t, c),
                  lambda: canon([t, c, d0, d1, tr]))
        if not translatable(c):
          continue
        for l in langs:
          k = (t, c, l)
          shown = by_id.get(k + rid)
          if shown is None:
            shown = by_value.get(k + (d1[c],))
          if shown is None:
            shown = every.get(k)
          if shown is None:
            shown = d1[c]
          if tr:
            old_shown = tr.get(l, tr[lang])
          else:
            # the same text elsewhere in this column may stand for a key
            if any(words[x][lang] == d1[c] for x in here[c]):
              continue
            old_shown = d0[c]
          ctx.check(shown == old_shown, 'translation:%s' % t,
                    lambda: canon([t, c, l, d0, d1, shown, old_shown]))
          if tr and shown != d1[c]:
            ctx.probe('by_id' if by_id.get(k + rid) is not None else
                      'by_value')
