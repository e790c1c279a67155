import csv
import io
import os
import fca
import gen
from fca import ManyValuedContext
from fca.readwrite.comma_separated import read_csv, read_mv_csv
from fca.readwrite.tab_separated import (read_mv_txt, read_txt, read_txt_with_names, uread_mv_txt, uwrite_mv_txt,
                                         write_mv_txt)
from lib import anywhere, same_context, suffix_ok, typed

CASES = {'quick': 4000, 'thorough': 120000}
RULE = ('many-valued tables, rarely with up to 1100 rows or columns (texts with quotes, delimiters of the other format, unicode, empty texts, numbers) written and '
        'read by both function pairs; binary tables of ones and zeros as hand-made files with and without object names, '
        'with every quoting style and blank lines at the end, names given repeatedly, comma separated with blanks around the cells; empty tables; the unicode pair also under a locale of another encoding. Non-trivial: a distinct '
        '(reader, names, values).')
STEPS = 60_000_000

WORDS = ['a', 'b', 'Obj 1', 'x,y', '"q"', 'he said "no"', "it's", '"', '""', 'ü', '漢字', '🙂', '0', '1', '-7', '1.5', 'None',
         'B', ';', 'a;b', '#', '<&>', '\\', '\\t', '%s', 'a  b', 'x' * 200, 'привет', '(1, 2)', '=1+1', '+', "''", 'nan', 'é',
         "'", '"a', 'a"', '""""', ',', ',,', 'a,', ',"', '",', 'a\x0cb', 'a\x0bb', 'p\x1cq', 'p\x1dq', 'p\x1eq', 'p\x85q',
         'p\u2028q', 'p\u2029q', 'z\u200bz', 'a\xa0b', '\ufeffx', 'e\u0301', 'ﬁ', '１']
BREAKS = ['a\nb', '\n', 'a\r\nb', 'a\n\nb', '1\n', '"\n"', 'x\ry']


def words(rng, n, blank=.0, pool=WORDS):
    p = list(pool) + (['g%d' % k for k in range(max(0, n - len(pool)))])
    r = rng.sample(p, n)
    if blank and r and rng.random() < blank:
        r[rng.randrange(n)] = ''
    return r


def fewer(rng, hi):
    return gen.size(rng, hi)


def dump(rng, path, recs, delimiter, eol=None, quoting=None, pad=''):
    """a file made by another program"""
    f = io.StringIO()
    end = '\r\n' if rng.random() < .25 else '\n'
    w = csv.writer(f, delimiter=delimiter, lineterminator=end,
                   quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]) if quoting is None else quoting)
    for r in recs:
        if r is None:
            f.write(end)
        else:
            w.writerow(r)
    t = f.getvalue()
    if rng.random() < .2:                         # blank lines at the end
        t += end * rng.choice([1, 1, 2, 3])
    elif rng.random() < .25 and t.endswith(end) and recs and recs[-1]:
        t = t[:-len(end)]
    with open(path, 'wb') as g:
        g.write(t.encode('utf-8'))
    return t


def repeated(rng, names):
    """some of the names given again"""
    out = list(names)
    if len(out) > 1:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(1, len(out))
            out[k] = out[k - 1] if rng.random() < .6 else rng.choice(out)
    return out


def distinct(obs, c, objs, atts, what):
    """the names of the context read, which differ from *objs* and *atts* only where these are repeated"""
    suffix_ok(obs, list(c.objects), objs, what + ': objects')
    suffix_ok(obs, list(c.attributes), atts, what + ': attributes')
    return list(c.objects), list(c.attributes)


def vals(c):
    return [typed(r) for r in c.table]


def mv_same(obs, c, objs, atts, rows, what):
    obs.check(type(c) is ManyValuedContext, what + ': not a many-valued context', type=type(c))
    obs.eq((typed(c.objects), typed(c.attributes)), (typed(objs), typed(atts)), what + ': names')
    obs.eq(vals(c), [typed(r) for r in rows], what + ': values')


def value(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.randint(-99, 999)
    if k == 1:
        return rng.choice([.5, 1.25, -3.0, 1e9, 2.0])
    if k == 2:
        return ''
    if k == 3:
        return rng.choice([' ', ' a', 'a ', '  b  '])
    return rng.choice(WORDS)


def case(rng, obs, i):
    path = os.path.join(obs.tmp, 'c23.txt')
    kind = i % 5
    n, m = fewer(rng, 8), fewer(rng, 6)
    if i % 211 == 100:
        n, m = rng.choice([(70, 3), (257, 2), (1001, 2), (1100, 1), (3, 70), (2, 260), (1, 1100)])
        obs.tag('large')
    if kind in (0, 1):
        objs, atts = words(rng, n, .15), words(rng, m, .15)
        rows = [[value(rng) for _ in range(m)] for _ in range(n)]
        if not m:
            rows = [[] for _ in range(n)]
        obs.sample = {'objects': objs, 'attributes': atts, 'rows': [[repr(v) for v in r] for r in rows]}
        mv = ManyValuedContext([list(r) for r in rows], list(objs), list(atts))
        for name, w, r in (('mv_txt', write_mv_txt, read_mv_txt), ('umv_txt', uwrite_mv_txt, uread_mv_txt)):
            if name == 'umv_txt':
                w, r = anywhere(rng, w), anywhere(rng, r)
            if m == 0 and n:
                obs.tag('no attributes (not judged)')
                break
            if os.path.exists(path) and rng.random() < .5:
                os.unlink(path)
            obs.call('write_' + name, w, mv, path)
            mv_same(obs, mv, objs, atts, rows, 'after writing')
            c = obs.call('read_' + name, r, path)
            mv_same(obs, c, objs, atts, [[str(v) for v in x] for x in rows], 'round trip by ' + name)
            obs.state(name, objs, atts, [[str(v) for v in x] for x in rows])
            obs.tag(name)
            if m and rng.random() < .2:           # blank lines at the end
                with open(path, 'ab') as g:
                    g.write(rng.choice([b'\n', b'\n\n', b'\r\n', b'\n\n\n']))
                mv_same(obs, obs.call('read_' + name, r, path), objs, atts, [[str(v) for v in x] for x in rows],
                        'blank lines at the end, ' + name)
                obs.tag('blank lines at the end')
            if n and m and rng.random() < .1:     # lines of names that end in a tab, as some programs write them
                o, a = ['o%d' % k for k in range(n)], ['a%d' % k for k in range(m)]
                cells = [[str(rng.randint(-9, 99)) for _ in a] for _ in o]
                k = rng.randrange(1, 4)
                with open(path, 'w', encoding='utf-8') as g:
                    g.write('\t'.join(o) + '\t' * (k & 1) + '\n' + '\t'.join(a) + '\t' * (k >> 1) + '\n\n' +
                            ''.join('\t'.join(x) + '\n' for x in cells))
                mv_same(obs, obs.call('read_' + name, r, path), o, a, cells, 'names ending in a tab, ' + name)
                obs.tag('names end in a tab')
        return
    if kind == 2:
        objs, atts = words(rng, n), words(rng, m)
        if rng.random() < .1:
            objs, atts = repeated(rng, objs), rng.choice([atts, repeated(rng, atts)])
        rows = [[str(value(rng)) for _ in range(m)] for _ in range(n)]
        pad = rng.random() < .3
        if m and n and rng.random() < .15:
            for _ in range(rng.choice([1, 1, 2, 5])):
                rng.choice(rows)[rng.randrange(m)] = rng.choice(BREAKS)
            obs.tag('line breaks inside values')
        p = lambda x: (' ' * rng.randint(0, 2) + x + ' ' * rng.randint(0, 2)) if pad else x
        recs = [[p(a) for a in atts]] + [[p(o)] + r for o, r in zip(objs, rows)]
        if not m:
            recs[0] = None
        obs.sample = {'csv': dump(rng, path, recs, ',')}
        c = obs.call('read_mv_csv', read_mv_csv, path)
        objs, atts = distinct(obs, c, objs, atts, 'read_mv_csv')
        mv_same(obs, c, objs, atts, rows, 'read_mv_csv')
        obs.state('csv', objs, atts, rows)
        obs.tag('read_mv_csv')
        return
    rows = gen.table(rng, n, m)
    if i % 37 == 36:
        m = rng.choice([33, 64, 70])
        rows = gen.table(rng, n, m)
    table = [[bool(r >> j & 1) for j in range(m)] for r in rows]
    objs = words(rng, n)
    atts = words(rng, m, .1)
    if rng.random() < .1:
        objs, atts = repeated(rng, objs), rng.choice([atts, repeated(rng, atts)])
    cells = [['1' if v else '0' for v in r] for r in table]
    if kind == 3:
        pad = rng.random() < .4
        p = lambda x: (' ' * rng.randint(0, 2) + x + ' ' * rng.randint(0, 2)) if pad else x
        recs = [[p(a) for a in atts]] + [[p(o)] + [p(x) for x in r] for o, r in zip(objs, cells)]
        if not m:
            recs[0] = None
        obs.sample = {'csv': dump(rng, path, recs, ',')}
        c = obs.call('read_csv', read_csv, path)
        objs, atts = distinct(obs, c, objs, atts, 'read_csv')
        same_context(obs, c, objs, atts, table, 'read_csv')
        obs.state('read_csv', objs, atts, rows)
        obs.tag('read_csv')
        return
    if m == 0:
        obs.tag('no attributes (not judged)')
        return
    named = rng.random() < .5
    if rng.random() < .3 and '' not in atts:
        head = [' ' * rng.randint(0, 2) + a + ' ' * rng.randint(0, 2) for a in atts]
    else:
        head = atts
    quoting = None
    if n and rng.random() < .1:                   # headings that end in a tab, as some programs write them
        head = atts = ['a%d' % k for k in range(m)]
        head, quoting = head + [''], csv.QUOTE_MINIMAL
        obs.tag('heading ends in a tab')
    recs = [head, None] + [([o] if named else []) + r for o, r in zip(objs, cells)]
    obs.sample = {'txt': dump(rng, path, recs, '\t', quoting=quoting), 'named': named}
    if named:
        c = obs.call('read_txt_with_names', read_txt_with_names, path)
        objs, atts = distinct(obs, c, objs, atts, 'read_txt_with_names')
        same_context(obs, c, objs, atts, table, 'read_txt_with_names')
    else:
        c = obs.call('read_txt', read_txt, path)
        objs, atts = distinct(obs, c, ['g%d' % (k + 1) for k in range(n)], atts, 'read_txt')
        same_context(obs, c, objs, atts, table, 'read_txt')
    obs.state('txt', named, objs, atts, rows)
    obs.tag('read_txt_with_names' if named else 'read_txt')
