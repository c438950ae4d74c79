#!/opt/venv/bin/python
"""Mutation testing of the checks (development aid, not part of any check).

mutate.py <file relative to /repo> <check ids, comma separated> [function regex] [-n max] [-t: only mutants that pass the tests]
"""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seg(src, lines, n):
    return (lines[n.lineno - 1] + len(src.split('\n')[n.lineno - 1].encode()[:n.col_offset].decode()),
            lines[n.end_lineno - 1] + len(src.split('\n')[n.end_lineno - 1].encode()[:n.end_col_offset].decode()))


def py_mutants(src, rx):
    lines = [0]
    for l in src.split('\n'):
        lines.append(lines[-1] + len(l) + 1)
    tree = ast.parse(src)
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or not re.search(rx, qual(tree, fn)):
            continue
        for n in ast.walk(fn):
            for new in mutate(n, src):
                a, b = seg(src, lines, n)
                out.append((fn.name, n.lineno, src[a:b], new, src[:a] + new + src[b:]))
    return out


def qual(tree, fn):
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef) and fn in c.body:
            return c.name + '.' + fn.name
    return fn.name


CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<',
       ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '//'}


def mutate(n, src):
    s = lambda x: ast.get_source_segment(src, x)         # noqa
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            yield '%s %s %s' % (s(n.left), o, s(n.comparators[0]))
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        yield '(%s %s %s)' % (s(n.left), BIN[type(n.op)], s(n.right))
    elif isinstance(n, ast.BoolOp):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        yield '(' + op.join(s(v) for v in n.values) + ')'
        for v in n.values:
            yield s(v)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield s(n.operand)
    elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
        if isinstance(n.value, bool):
            yield str(not n.value)
        elif isinstance(n.value, int):
            yield str(n.value + 1)
            if n.value > 0:
                yield str(n.value - 1)
        elif isinstance(n.value, float):
            yield repr(n.value * 1.5 + 1)
    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 14 and not n.value.isspace() and n.value:
        yield repr({'<i2': '<u2', 'i2': 'u2', '<f4': '<f8', 'f4': 'i4', '<i4': '<u4', 'float32': 'float64', 'i4': 'i2', 'u1': 'i1',
                    'rb': 'r+b'}.get(n.value, n.value + 'x'))
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        yield 'pass'
    elif isinstance(n, ast.If):
        t = s(n.test)
        src_if = s(n)
        i = src_if.index(t)
        yield src_if[:i] + 'not (' + t + ')' + src_if[i + len(t):]
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        swap = {'read_short': 'read_unsigned_short', 'read_int': 'read_unsigned_int', 'read_unsigned_int': 'read_int',
                'read_float': 'read_int', 'read_varint': 'read_unsigned_varint', 'read_unsigned_varint': 'read_varint',
                'read_string': 'read_var_string', 'copy': '', 'min': 'max', 'max': 'min', 'read_unsigned_short': 'read_short',
                'read_double': 'read_float', 'varint_array': 'unsigned_varint_array', 'set': 'list', 'sorted': 'list'}
        if n.func.id in swap:
            x = s(n)
            yield swap[n.func.id] + x[len(n.func.id):]
    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        yield 'return None'
    elif isinstance(n, ast.Raise):
        yield 'pass'
    elif isinstance(n, ast.Continue):
        yield 'break'
    elif isinstance(n, ast.Break):
        yield 'continue'


PYX = [(r'<<', '>>'), (r'(?<!>)>>(?!>)', '<<'), (r'\|', '&'), (r'(?<![&<]) & ', ' | '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' = '),
       (r' == ', ' != '), (r' != ', ' == '), (r'(?<![<\w]) < (?!<)', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '),
       (r'\buint8_t\b', 'uint16_t'), (r'\bint16_t\b', 'uint16_t'), (r'\buint16_t\b', 'int16_t'), (r'\buint32_t\b', 'uint16_t'),
       (r'\bint32_t\b', 'int16_t'), (r'\buint64_t\b', 'uint32_t'), (r'\bint64_t\b', 'int32_t'),
       (r'\bnot ', ''), (r'\bif (?!not)', 'if not '), (r' \* ', ' + '), (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)),
       (r'\b0x([0-9a-f]+)\b', lambda m: hex(int(m.group(1), 16) ^ 1)), (r'check_available\(.*\)', '0'), (r' and ', ' or '),
       (r'True', 'False'), (r'False', 'True')]


def pyx_mutants(src, rx):
    out = []
    fn = ''
    lines = src.split('\n')
    doc = False
    for k, l in enumerate(lines):
        m = re.match(r'(?:cpdef|cdef|def)\s.*?(\w+)\(', l)
        if m:
            fn = m.group(1)
        q = l.count("'''") + l.count('"""')
        if doc or q:
            if q % 2:
                doc = not doc
            continue
        if not fn or not re.search(rx, fn) or l.strip().startswith(('#', 'import', 'from', '@')) or not l.strip():
            continue
        code = l.split('  #')[0]
        for pat, new in PYX:
            for m in re.finditer(pat, code):
                nl = code[:m.start()] + (new(m) if callable(new) else new) + code[m.end():]
                if nl != code:
                    out.append((fn, k + 1, code.strip(), nl.strip(), '\n'.join(lines[:k] + [nl] + lines[k + 1:])))
        ind = len(l) - len(l.lstrip())
        if re.match(r'\s+[\w\[\], .]+ [-+|]?= ', l) and not l.rstrip().endswith(('(', '[')) and 'cdef' not in l:
            out.append((fn, k + 1, code.strip(), 'pass', '\n'.join(lines[:k] + [' ' * ind + 'pass'] + lines[k + 1:])))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    nmax = int(next((a[2:] for a in sys.argv if a.startswith('-n')), 60))
    tests = '-t' in sys.argv
    rel, checks = args[0], args[1].split(',')
    rx = args[2] if len(args) > 2 else '.'
    src = open(os.path.join('/repo', rel)).read()
    ms = (py_mutants if rel.endswith('.py') else pyx_mutants)(src, rx)
    random.seed(int(next((a[2:] for a in sys.argv if a.startswith('-s')), 1)))
    random.shuffle(ms)
    ms = ms[:nmax]
    print(len(ms), 'mutants')

    def one(k):
        fn, line, old, new, text = ms[k]
        d = '/tmp/mut/%d' % k
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree('/repo/src', d + '/src')
        open(os.path.join(d, rel), 'w').write(text)
        res = []
        msg = ''
        if rel.endswith('.py'):
            try:
                compile(text, rel, 'exec')
            except SyntaxError:
                shutil.rmtree(d)
                return k, ['syntax'], ''
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_SERIAL='1', VERIF_NOEVIDENCE='1')
            p = subprocess.run([PY, os.path.join(HERE, 'check.py'), c, 'quick'], env=env, capture_output=True, text=True, timeout=900)
            res.append({0: 'MISSED', 1: 'caught'}.get(p.returncode, 'rc%d' % p.returncode))
            if p.returncode == 0 and 'undecided:' in p.stdout:
                res[-1] = 'UNDECIDED'
                msg = [l for l in p.stdout.split('\n') if 'undecided:' in l][0][:160]
            if p.returncode not in (0, 1):
                msg = p.stdout[-200:] + p.stderr[-200:]
        shutil.rmtree(d)
        return k, res, msg
    stat = {}
    with ThreadPoolExecutor(8) as ex:
        for k, res, msg in ex.map(one, range(len(ms))):
            best = 'caught' if 'caught' in res else res[0]
            stat[best] = stat.get(best, 0) + 1
            if best != 'caught':
                fn, line, old, new, text = ms[k]
                print('%s %s:%d  %s  ->  %s   %s' % (best, fn, line, ' '.join(old.split())[:70], ' '.join(new.split())[:70], msg))
    print(stat)


main()
