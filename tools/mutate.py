#!/usr/bin/env python3
"""Mutants of the code: which ones do the checks miss?

mutate.py FILE N C09,C02,...   at most N mutants of /repo/FILE that pass the
                               stable tests, each given to these checks until
                               one reports it; results in /tmp/mut/results
"""
import ast
import json
import os
import random
import re
import shutil
import sys
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plant
from plant import sh

OPS = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='],
       '==': ['!='], '!=': ['=='], 'is': ['is not'], 'is not': ['is'],
       'in': ['not in'], 'not in': ['in'],
       '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '//': ['/'], '**': ['*'],
       '%': ['//'], 'and': ['or'], 'or': ['and'],
       '+=': ['-=', '='], '-=': ['+=', '='], '*=': ['/=', '='], '/=': ['*=']}
NAMES = {'adjoint': 'iadjoint', 'iadjoint': 'adjoint', 'sin': 'cos',
         'cos': 'sin', 'min': 'max', 'max': 'min', 'zeros': 'ones',
         'any': 'all', 'all': 'any', 'append': 'extend', 'rotx': 'roty',
         'roty': 'rotz', 'rotz': 'rotx', 'eye': 'zeros_like', 'vstack':
         'hstack', 'argmin': 'argmax', 'argmax': 'argmin', 'minimum': 'maximum',
         'maximum': 'minimum', 'inv': 'array', 'solve': 'dot'}
PEEL = ('abs', 'array', 'list', 'copy', 'float', 'str', 'tuple', 'sorted',
        'set', 'sqrt', 'reversed')


def mutants(src):
    """[(line, what, new source)]"""
    data = src.encode()
    lines = data.split(b'\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    pos = lambda l, c: starts[l - 1] + c
    b = lambda n: pos(n.lineno, n.col_offset)
    e = lambda n: pos(n.end_lineno, n.end_col_offset)
    out = []
    tree = ast.parse(src)

    def put(node, i, j, new, what):
        old = data[i:j].decode()
        if old == new:
            return
        out.append((node.lineno, '%s: %s -> %s' % (what, old[:60], new[:60]),
                    (data[:i] + new.encode() + data[j:]).decode()))

    skip = set()
    for n in ast.walk(tree):
        body = getattr(n, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) \
                and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            skip.add(body[0])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('warning', 'warn', 'info', 'debug', 'format',
                                'error'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(x for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.If) and '__main__' in ast.dump(n.test):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        gaps = []
        if isinstance(n, ast.Compare):
            seq = [n.left] + n.comparators
            gaps = list(zip(seq, seq[1:]))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value,
                                                               str):
                continue
            gaps = [(n.left, n.right)]
        elif isinstance(n, ast.BoolOp):
            gaps = list(zip(n.values, n.values[1:]))
        elif isinstance(n, ast.AugAssign):
            gaps = [(n.target, n.value)]
        for x, y in gaps:
            i, j = e(x), b(y)
            g = data[i:j].decode()
            m = re.search(r'(not\s+in|is\s+not|\bin\b|\bis\b|\band\b|\bor\b|'
                          r'[-+*/]=|[<>=!]=|//|\*\*|[-+*/%<>])', g)
            if m:
                for new in OPS.get(re.sub(r'\s+', ' ', m.group(1)), ()):
                    put(n, i + m.start(1), i + m.end(1), new, 'operator')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, b(n), e(n), '(' + data[b(n.operand):e(n.operand)].decode()
                + ')', 'unary')
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, b(n), e(n), str(not v), 'constant')
            elif isinstance(v, int):
                put(n, b(n), e(n), str(v + 1), 'constant')
                if v > 0:
                    put(n, b(n), e(n), str(v - 1), 'constant')
            elif isinstance(v, float):
                put(n, b(n), e(n), repr(v * 1.01 if v else 0.01), 'constant')
                if v == 1.:
                    put(n, b(n), e(n), '0.', 'constant')
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n, b(n.test), e(n.test), 'True', 'condition')
            put(n, b(n.test), e(n.test), 'False', 'condition')
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Break, ast.Continue)) \
                or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or \
                isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(
                    n.targets[0] if isinstance(n, ast.Assign) else n.target,
                    (ast.Attribute, ast.Subscript)):
            put(n, b(n), e(n), 'pass', 'deleted')
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else \
                f.id if isinstance(f, ast.Name) else ''
            if len(n.args) >= 2 and not isinstance(n.args[1], ast.Starred) \
                    and name not in ('isinstance', 'hasattr', 'getattr'):
                x, y = n.args[:2]
                s = lambda z: data[b(z):e(z)].decode()
                put(n, b(x), e(y), s(y) + data[e(x):b(y)].decode() + s(x),
                    'swap')
            if name in NAMES:
                k = e(f)
                put(n, k - len(name), k, NAMES[name], 'function')
            if name in PEEL:
                if len(n.args) == 1 and not n.keywords:
                    put(n, b(n), e(n), '(' + data[b(n.args[0]):e(n.args[0])]
                        .decode() + ')', 'peel')
                elif isinstance(f, ast.Attribute) and not n.args:
                    put(n, b(n), e(n), data[b(f.value):e(f.value)].decode(),
                        'peel')
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            put(n, b(n), e(n), data[b(n.value):e(n.value)].decode(), 'peel')
        if isinstance(n, ast.FunctionDef):
            d = [x for x in n.body if isinstance(x, ast.Return)]
    return out


GUARD = """
_G_SITES = {}


def _guard(kind, site, names):
    import numpy
    k = _G_SITES.setdefault(site, [0, []])
    k[0] += 1
    if kind == 'late':
        return k[0] > 5
    if kind == 'second':
        # another object than the first one
        me = names.get('self', names.get('shapes', names.get('joint', names.get('world'))))
        if not k[1]:
            k[1].append(me)
        return k[1][0] is not me
    nums = []
    for n, v in names.items():
        if isinstance(v, float) and n != 'dt' or type(v) is numpy.float64:
            nums.append(numpy.array([v]))
        elif isinstance(v, numpy.ndarray) and v.ndim == 1 and v.size and \\
                v.dtype == float:
            nums.append(v)
    for x in ('gpos', 'gvel', 'twist'):
        try:
            v = numpy.asarray(getattr(names.get('self'), x, None), float)
            if v.ndim == 1 and v.size:
                nums.append(v)
        except Exception:
            pass
    if kind == 'zero':
        return any((v == 0.).any() and ((v != 0.).any() or v.size == 1)
                   for v in nums)
    if kind == 'negative':
        return any(v[0] < 0. for v in nums)
    if kind == 'big':
        return any(abs(v).max() > 2.5 for v in nums)
    if kind == 'small':
        return any(0. < abs(v).max() < 0.05 for v in nums)
    raise KeyError(kind)
"""
KINDS = ('late', 'second', 'zero', 'negative', 'big', 'small')


def guarded(src):
    """The same mutants, which show only under some condition."""
    tree = ast.parse(src)
    stmts = []
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return,
                                  ast.Expr)):
                    stmts.append((n.lineno, n.end_lineno))
    lines = src.split('\n')
    out = []
    for c, (line, what, new) in enumerate(mutants(src)):
        hit = [x for x in stmts if x[0] <= line <= x[1]]
        if not hit or what.startswith('condition'):
            continue
        a, b = max(hit)
        nl = new.split('\n')
        if len(nl) != len(lines) and a != b:
            continue
        extra = len(nl) - len(lines)
        old = lines[a - 1:b]
        pad = re.match(' *', old[0]).group(0)
        if old[0].strip().startswith(('if ', 'for ', 'else', 'elif', 'try',
                                      'lambda')):
            continue
        kind = KINDS[c % len(KINDS)]
        body = [pad + 'if _guard(%r, %d, locals()):' % (kind, c)] + \
            ['    ' + x for x in nl[a - 1:b + extra]] + [pad + 'else:'] + \
            ['    ' + x for x in old]
        text = '\n'.join(lines[:a - 1] + body + lines[b:]) + GUARD
        out.append((line, kind + ' ' + what, text))
    return out


def main():
    file, limit, checks = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(',')
    only = sys.argv[4] if len(sys.argv) > 4 else None
    with open('/repo/' + file, encoding='utf8') as f:
        src = f.read()
    todo = guarded(src) if os.environ.get('GUARD') else mutants(src)
    if only:
        todo = [t for t in todo if re.search(only, '%d: %s' % t[:2])]
    random.Random(1).shuffle(todo)
    plant.TMP = '/tmp/mut/copies'
    os.makedirs('/tmp/mut/results', exist_ok=True)
    res = '/tmp/mut/results/%s%s.jsonl' % (
        'guard_' if os.environ.get('GUARD') else '', file.replace('/', '_'))
    done = set()
    if os.path.exists(res):
        with open(res) as f:
            done = set((json.loads(l)['line'], json.loads(l)['what'])
                       for l in f)
    todo = [t for t in todo if t[:2] not in done]
    print('%s: %d mutants, %d known' % (file, len(todo), len(done)), flush=True)
    stride = os.environ.get('STRIDE', '5')
    lock = threading.Lock()
    count = [0]

    def work(k):
        name = 'w%d' % k
        copy = plant.copy_repo(name)
        here = os.path.join(plant.TMP, 'v%d' % k)
        shutil.rmtree(here, ignore_errors=True)
        os.makedirs(here)
        for x in ('mc', 'check.py', 'known_findings.json'):
            sh('cp -a %s/%s %s' % (HERE, x, here))
        while True:
            with lock:
                if not todo or count[0] >= limit:
                    return
                line, what, new = todo.pop()
            with open(os.path.join(copy, file), 'w', encoding='utf8') as f:
                f.write(new)
            status = None
            try:
                compile(new, file, 'exec')
                try:
                    if plant.tests(copy):
                        status = 'tests'
                except Exception:
                    status = 'tests'
                if status is None:
                    with lock:
                        count[0] += 1
                    for c in checks:
                        try:
                            rc, o = sh('%s -W ignore check.py %s quick' % (
                                plant.PY, c), here, dict(
                                    VERIF_REPO=copy, VERIF_PROCS='1',
                                    VERIF_MAX_BAD='1', VERIF_STRIDE=stride),
                                timeout=900)
                        except Exception:
                            status = 'timeout ' + c
                            break
                        if rc:
                            status = c
                            break
                    else:
                        status = 'SURVIVED'
            except SyntaxError:
                status = 'syntax'
            with lock:
                with open(res, 'a') as f:
                    f.write(json.dumps(dict(line=line, what=what,
                                            status=status)) + '\n')
                if status == 'SURVIVED' or status.startswith('timeout'):
                    print('%s:%d %s [%s]' % (file, line, what, status),
                          flush=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('THREADS', 8)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(plant.TMP, ignore_errors=True)


if __name__ == '__main__':
    main()
