import ast
import os
import fca
import gen
from fca.readwrite.cxt import uread_cxt, uwrite_cxt
from fca import read_cxt, write_cxt
from lib import anywhere, data_contexts, same_context, snapshot, typed
from model import Ref

CASES = {'quick': 4000, 'thorough': 100000}
RULE = ('contexts with single-line names of many kinds (literal look-alikes, expressions that would show being '
        'evaluated, unicode, markup, numbers, empty), with or without objects or attributes, sometimes wide or with more than a thousand names or names beyond buffer sizes, written and '
        'read by both function pairs, the file text compared with the format, plus hand-made files in format variations '
        'and files without marker; the unicode pair also under a locale of another encoding. Non-trivial: a distinct (names, incidence, pair of functions).')
STEPS = 150_000_000

LITERALS = ['1', '007', '-3', '1.0', '1e3', 'None', 'True', '(1, 2)', "'a'", '"x y"', '[1, 2]', '{}', '{1: 2}', "b'x'",
            '1_000', '0x10', '1j', '()', "'1'", "{1}", '1+2j', '-0', '...', 'Ellipsis', "('a',)", "''"]
TRAPS = ['__import__("os").system("true")', '1+1', 'len', 'id', 'path', 'open', 'input_file', 'print(1)', 'objects',
         '[x for x in (1,2)]', 'exit()', 'ast', 'fca', '"a"+"b"', '2**8', 'number_of_objects', 'max(1,2)', 'list',
         'not True', 'f"{1}"', 'lambda: 0', 'eval("1")', 'a.b', '1/0', 'i', 'context', '_parse_name']
PLAIN = ['', 'Obj 1', 'a', 'X', 'XX..', 'B', '.', '#', 'a, b', 'x;y', 'ä ö', '漢字', '🙂', "it's", '"', '<a>&', 'a  b', '%d',
         '\\n', 'tab\tin', '()(', '1 2', '- 5', '(1', 'a\u0301', '\u200b', 'привет мир', 'x' * 300, '8' * 30, 'é', '+',
         'a\u2028b', 'a\u2029b', 'a\x85b', 'a\x0bb', 'a\x0cb', 'a\x1cb', 'a\x1eb', 'a\xa0b', 'a\ufeffb', '\ufeffa']


def pool(rng, n, kinds):
    p = []
    for k in kinds:
        p += {'lit': LITERALS, 'trap': TRAPS, 'plain': PLAIN, 'num': ['%d' % x for x in range(-5, 60)],
              'short': [a + b for a in 'abcXB.' for b in ' xyzX.']}[k]
    p = sorted({x.strip() for x in p})
    return rng.sample(p, min(n, len(p)))


def as_read(text):
    try:
        v = ast.literal_eval(text)
        hash(v)
        return v
    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
        return text


def text_of(objs, atts, rows):
    m = len(atts)
    return 'B\n\n%d\n%d\n\n%s%s%s' % (
        len(objs), m, ''.join('%s\n' % o for o in objs), ''.join('%s\n' % a for a in atts),
        ''.join(''.join('X' if r >> j & 1 else '.' for j in range(m)) + '\n' for r in rows))


def distinct(names):
    try:
        return len(set(names)) == len(names)
    except TypeError:
        return False


def case(rng, obs, i):
    path = os.path.join(obs.tmp, 'c22.cxt')
    if i % 40 == 39:
        D = [r for _, r in data_contexts()]
        ref = rng.choice(D).copy() if D else gen.spec(rng, 8, 7)
        objs, atts, rows = ref.objs, ref.atts, ref.rows
    elif i % 500 == 249:                         # very long lists of names, very long names
        n, m = rng.choice([1001, 1030, 1300]), rng.choice([1, 2, 9, 70])
        objs, atts = gen.names(rng, n, rng.choice(['plain', 'shuffled', 'int']), 'o'), gen.names(rng, m, 'plain', 'a')
        rows = gen.table(rng, n, m, rng.choice(['random', 'coldens', 'dups', 'full', 'empty']))
        for side in (objs, atts):
            for k in range(rng.randint(0, 2)):
                side[rng.randrange(len(side))] = '%s %d' % ('long é' * rng.choice([700, 1400, 11000]), k)
        if rng.random() < .5:
            r = Ref(objs, atts, rows).transpose()
            objs, atts, rows = r.objs, r.atts, r.rows
        obs.tag('very large')
    elif i % 25 == 24:
        ref = gen.wide_spec(rng, transposed=rng.random() < .5)
        objs, atts, rows = ref.objs, ref.atts, ref.rows
    else:
        ks = lambda: rng.sample(['lit', 'trap', 'plain', 'num', 'short'], rng.randint(1, 3))
        objs, atts = pool(rng, gen.size(rng, 10), ks()), pool(rng, gen.size(rng, 10), ks())
        if rng.random() < .15:
            atts = pool(rng, 40, ['short', 'num'])
        rows = gen.table(rng, len(objs), len(atts))
    objs, atts = [str(o).strip() for o in objs], [str(a).strip() for a in atts]
    table = [[bool(r >> j & 1) for j in range(len(atts))] for r in rows]
    obs.sample = {'objects': [o[:99] for o in objs[:30]], 'attributes': [a[:99] for a in atts[:30]], 'rows': [bin(r) for r in rows[:20]]}
    plain = [as_read(x) for x in objs], [as_read(x) for x in atts]
    # names that read as equal values (1 and True, '1' and 1.0) cannot all be kept
    pairs = []
    if distinct(plain[0]) and distinct(plain[1]):
        pairs.append(('cxt', write_cxt, read_cxt, plain))
    pairs.append(('ucxt', uwrite_cxt, uread_cxt, (objs, atts)))
    for name, w, r, want in pairs:
        if name == 'ucxt':
            w, r = anywhere(rng, w), anywhere(rng, r)
        # names that are no texts are written as their texts
        src = plain if rng.random() < .4 and distinct(plain[0]) and distinct(plain[1]) and all(
            str(v) == t for v, t in zip(plain[0] + plain[1], objs + atts)) else (objs, atts)
        if src is plain and any(not isinstance(v, str) for v in plain[0] + plain[1]):
            obs.tag('names that are no texts written by ' + name)
        c = gen.build(fca, Ref(src[0], src[1], rows), rng,
                      rng.choice(gen.BIG_HOWS if max(len(objs), len(atts)) > 500 else ['bool', 'int', 'npbool', 'byobj', 'byatt', 'setrows', 'transposed']))
        before = snapshot(c)
        if os.path.exists(path) and rng.random() < .5:
            os.unlink(path)
        obs.call('write_' + name, w, c, path)
        obs.eq(snapshot(c), before, 'writing changed the context')
        raw = open(path, 'rb').read()
        obs.eq(raw.decode('utf-8').replace('\r\n', '\n'), text_of(objs, atts, rows), 'the written file is not in the format')
        d = obs.call('read_' + name, r, path)
        obs.check(type(d) is fca.Context, 'reading gives no context', type=type(d))
        same_context(obs, d, want[0], want[1], table, 'round trip by %s' % name)
        obs.eq(open(path, 'rb').read(), raw, 'reading changed the file')
        # the context that was read works on its own and is written the same way again
        if name == 'ucxt':
            obs.call('write_' + name, w, d, path)
            obs.eq(open(path, 'rb').read(), raw, 'written again after reading, the file differs')
        obs.state(name, objs, atts, rows)
        obs.tag(name)
        for k, v in zip(objs + atts, want[0] + want[1]):
            if not isinstance(v, str):
                obs.tag('name read as a ' + type(v).__name__)
    # a file made by someone else: other line ends, blanks around, no final newline
    t = text_of(objs, atts, rows)
    lines = t.split('\n')[:-1]
    v = rng.randrange(5)
    if v == 1:
        lines = [x + ' ' * rng.randint(0, 2) for x in lines]
    if v == 2:
        lines = [' ' * rng.randint(0, 2) + x for x in lines]
    if v == 4:
        lines[0] = ' B '
    t = ('\r\n' if v == 3 else '\n').join(lines) + ('' if rng.random() < .3 and rows and atts else '\r\n' if v == 3 else '\n')
    with open(path, 'wb') as f:
        f.write(t.encode('utf-8'))
    if len(pairs) == 2:
        same_context(obs, obs.call('read_cxt', read_cxt, path), plain[0], plain[1], table, 'read_cxt, foreign file')
    same_context(obs, obs.call('uread_cxt', anywhere(rng, uread_cxt), path), objs, atts, table, 'uread_cxt, foreign file')
    # no marker
    bad = rng.choice(['', 'b', 'BB', 'A', 'X', '#B', 'B B', '4', '\n', 'B,'])
    with open(path, 'wb') as f:
        f.write((bad + '\n' + '\n'.join(lines[1:]) + '\n' if bad or rng.random() < .7 else '').encode('utf-8'))
    obs.refuse('read_cxt!', Exception, read_cxt, path)
    obs.refuse('uread_cxt!', Exception, uread_cxt, path)
    evil(rng, obs, path)


def evil(rng, obs, path):
    """names that would leave a trace if they were run"""
    import builtins
    mark = os.path.join(obs.tmp, 'ran')
    k = rng.randrange(4)
    name = ['__import__("builtins").__dict__.__setitem__("_rv_ran", 1)', 'open(%r, "w")' % mark,
            'setattr(__import__("builtins"), "_rv_ran", 1)', '[open(%r, "w") for _ in (1,)]' % mark][k]
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text_of(['o', name], ['a', name], [1, 2]))
    for api, r in (('read_cxt', read_cxt), ('uread_cxt', uread_cxt)):
        c = obs.call(api, r, path)
        ran = os.path.exists(mark) or hasattr(builtins, '_rv_ran')
        if ran:
            if os.path.exists(mark):
                os.unlink(mark)
            if hasattr(builtins, '_rv_ran'):
                del builtins._rv_ran
        obs.check(not ran, api + ' ran a name as code', name=name)
        obs.eq((list(c.objects), list(c.attributes)), (['o', name], ['a', name]), api + ': names')
