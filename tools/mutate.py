#!/usr/bin/env python3
"""Development helper: small syntactic changes to /repo/fca, one at a time, in a private copy mounted over /repo; runs the
checks whose workload reaches the changed line until one reports a violation, and lists the changes none reported.

usage: mutate.py OUT.json [--files a.py,b.py] [--sample N] [--seed S] [-j N] [--all]      LINES: /tmp/w/lines_Cxx.json"""
import argparse, ast, json, os, random, shutil, sys, copy, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import inside, sh

W = '/tmp/mutwork'
MAP = {'context.py': 'C12 C13 C01 C02 C11 C09 C29 C03 C10', 'compare_context.py': 'C20 C29 C13', 'concept.py': 'C05 C29 C25',
       'concept_lattice.py': 'C05 C04 C26 C29 C09', 'concept_system.py': 'C05 C27 C25 C29', 'implication.py': 'C28 C16 C18 C29 C08',
       'mvcontext.py': 'C21 C23 C29 C32', 'partial_context.py': 'C20 C28 C31', 'scale.py': 'C21 C29',
       'algorithms/aibasis.py': 'C06 C29', 'algorithms/closure_operators.py': 'C08 C02 C03 C06 C10 C29',
       'algorithms/dg_basis.py': 'C06 C07 C29 C09 C16 C20', 'algorithms/exploration.py': 'C17',
       'algorithms/exploration2/exploration.py': 'C18', 'algorithms/exploration_/exploration.py': 'C16 C31',
       'algorithms/factors.py': 'C14 C15 C29', 'algorithms/implication_covers.py': 'C10 C29',
       'algorithms/norris.py': 'C04 C05 C29 C25', 'algorithms/patterns.py': 'C19', 'algorithms/scaling.py': 'C21 C29',
       'readwrite/comma_separated.py': 'C23', 'readwrite/cxt.py': 'C22', 'readwrite/dot.py': 'C25 C29',
       'readwrite/fimi.py': 'C25', 'readwrite/tab_separated.py': 'C23', 'readwrite/xml_.py': 'C24'}


def checks_for(f):
    if f in MAP:
        return MAP[f].split()
    if f.startswith('algorithms/filtering'):
        return ['C26', 'C27', 'C29']
    return []


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq, ast.LtE, ast.GtE], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot, ast.Eq],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.FloorDiv], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd, ast.BitXor], ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.Pow: [ast.Mult], ast.Mod: [ast.Mult]}
UNWRAP = {'list', 'set', 'sorted', 'frozenset', 'tuple', 'deepcopy', 'copy', 'reversed', 'abs', 'str', 'bool', 'int', 'float', 'strip'}
METH = {'append': 'remove', 'update': 'intersection_update', 'issubset': 'issuperset', 'issuperset': 'issubset', 'union': 'intersection',
        'intersection': 'union', 'add': 'discard', 'startswith': 'endswith', 'all': 'any', 'any': 'all', 'min': 'max', 'max': 'min'}


def mutants(src):
    """yields (line, description, new source)"""
    tree = ast.parse(src)
    skip = set()
    for n in tree.body:
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__':
            skip |= set(ast.walk(n))
    lines = src.split('\n')
    off = [0]
    enc = [l.encode() for l in lines]

    def span(n):
        return (n.lineno - 1, n.col_offset, n.end_lineno - 1, n.end_col_offset)

    def repl(n, new):
        a, b, c, d = span(n)
        L = list(enc)
        first = L[a][:b] + new.encode() + L[c][d:]
        L[a:c + 1] = [first]
        return b'\n'.join(L).decode()
    U = ast.unparse
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        out = []
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    m = copy.deepcopy(n)
                    m.ops[k] = o()
                    out.append('(' + U(m) + ')')
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in BIN.get(type(n.op), []):
                m = copy.deepcopy(n)
                m.op = o()
                out.append(U(m) if isinstance(n, ast.AugAssign) else '(' + U(m) + ')')
            if isinstance(n, ast.BinOp) and not isinstance(n.op, ast.Mod):
                out += ['(' + U(n.left) + ')', '(' + U(n.right) + ')']
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            out.append('(' + U(m) + ')')
            for v in range(len(n.values)):
                rest = [x for k, x in enumerate(n.values) if k != v]
                out.append('(' + (U(rest[0]) if len(rest) == 1 else U(ast.BoolOp(n.op, rest))) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append('(' + U(n.operand) + ')')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                out.append(str(not n.value))
            elif isinstance(n.value, int):
                out += [str(n.value + 1), str(n.value - 1) if n.value else '-1']
            elif isinstance(n.value, float):
                out.append(repr(n.value + .5))
            elif isinstance(n.value, str) and len(n.value) < 12 and '"""' not in lines[n.lineno - 1]:
                out.append(repr(n.value + ' ') if n.value else "' '")
        elif isinstance(n, ast.Call):
            fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if fn in UNWRAP and len(n.args) >= 1:
                out.append('(' + U(n.args[0]) + ')')
            if fn in UNWRAP and isinstance(n.func, ast.Attribute) and not n.args:
                out.append('(' + U(n.func.value) + ')')
            if fn in METH:
                m = copy.deepcopy(n)
                if isinstance(n.func, ast.Name):
                    m.func.id = METH[fn]
                else:
                    m.func.attr = METH[fn]
                out.append(U(m))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if not (n.slice.lower or n.slice.upper or n.slice.step):
                out.append('(' + U(n.value) + ')')
            else:
                m = copy.deepcopy(n)
                m.slice = ast.Slice()
                out.append(U(m))
        elif isinstance(n, (ast.If, ast.While)):
            out = []
            for t in ('True', 'False') if isinstance(n, ast.If) else ('False',):
                yield n.lineno, 'cond -> %s: %s' % (t, U(n.test)[:60]), repl(n.test, t)
            continue
        elif isinstance(n, ast.IfExp):
            out += ['(' + U(n.body) + ')', '(' + U(n.orelse) + ')']
        elif isinstance(n, ast.comprehension):
            continue
        elif isinstance(n, (ast.Expr, ast.Assign)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if 'print' in U(n)[:6]:
                continue
            out.append('pass')
        elif isinstance(n, ast.Continue):
            out += ['break', 'pass']
        elif isinstance(n, ast.Break):
            out += ['continue', 'pass']
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append('return None')
        elif isinstance(n, ast.Raise):
            out.append('pass')
        elif isinstance(n, ast.ListComp) or isinstance(n, ast.SetComp) or isinstance(n, ast.GeneratorExp):
            for k, g in enumerate(n.generators):
                if g.ifs:
                    m = copy.deepcopy(n)
                    m.generators[k].ifs = []
                    out.append(U(m))
        for o in out:
            yield n.lineno, '%s -> %s' % (U(n)[:90], o[:90]), repl(n, o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('--again', help='only the survivors of an earlier run')
    a = ap.parse_args()
    reach = {}
    for i in range(1, 37):
        c = 'C%02d' % i
        for x in json.load(open('/tmp/w/lines_%s.json' % c)):
            reach.setdefault(x, set()).add(c)
    files = a.files.split(',') if a.files else [f for f in sh('git -C /repo ls-files fca').stdout.split() if f.endswith('.py')]
    files = [f[4:] if f.startswith('fca/') else f for f in files]
    todo = []
    for f in files:
        cs = checks_for(f)
        if not cs:
            continue
        src = open('/repo/fca/' + f).read()
        seen = {src}
        for line, what, new in mutants(src):
            if new in seen:
                continue
            seen.add(new)
            try:
                compile(new, f, 'exec')
            except (SyntaxError, ValueError):
                continue
            hit = reach.get('%s:%d' % (f, line), set())
            use = [c for c in cs if c in hit] or (cs[:1] if line else [])
            todo.append((f, line, what, new, use, bool(hit)))
    if a.again:
        old = {(r['file'], r['line'], r['what']) for r in json.load(open(a.again))}
        todo = [t for t in todo if t[:3] in old]
    if a.sample:
        todo = random.Random(a.seed).sample(todo, min(a.sample, len(todo)))
    print(len(todo), 'changes', flush=True)
    shutil.rmtree(W, ignore_errors=True)
    for k in range(a.j):
        sh('mkdir -p %s/%d && cp -a /repo %s/%d/repo && cp -a /verif %s/%d/verif' % (W, k, W, k, W, k))
    free = list(range(a.j))
    surv, n = [], [0, time.time()]

    def one(t):
        f, line, what, new, use, hit = t
        k = free.pop()
        d = '%s/%d' % (W, k)
        p = d + '/repo/fca/' + f
        old = open(p).read()
        open(p, 'w').write(new)
        res = 'missed'
        try:
            for c in use:
                rc, o = inside(d + '/repo', d + '/verif', 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 240 python3 rv/run.py ' + c)
                if rc:
                    res = '%s:%d' % (c, rc)
                    break
        finally:
            open(p, 'w').write(old)
            free.append(k)
        n[0] += 1
        if res == 'missed':
            surv.append({'file': f, 'line': line, 'what': what, 'checks': use, 'reached': hit})
            print('SURVIVES %s:%d %s   [%s]%s' % (f, line, what, ' '.join(use), '' if hit else ' not reached'), flush=True)
        elif not res.endswith(':1'):
            print('ODD %s %s:%d %s' % (res, f, line, what), flush=True)
        if n[0] % 50 == 0:
            print('...', n[0], 'done,', len(surv), 'survive,', round(time.time() - n[1]), 's', flush=True)
            json.dump(surv, open(a.out, 'w'), indent=1)
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, todo))
    json.dump(surv, open(a.out, 'w'), indent=1)
    print('END', n[0], len(surv))
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
