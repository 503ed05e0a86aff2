"""
mutate.py OUT SEED COUNT [FILES]: small syntactic changes, one at a time, in a scratch copy of /repo; the checks that concern
the file are run (quick tier) until one reports a violation. Survivors are listed in OUT, to be looked at by hand.
"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

SRC = os.environ.get('MUT_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'atooms/postprocessing/'
CHECKS = {
    'correlation.py': 'C01 C02 C09 C10 C05 C07 C15 C17 C20 C21 C14 C18 C19 C26 C13 C30 C31 C32 C33 C34 C22',
    'helpers.py': 'C03 C04 C01 C25 C26 C20 C15 C13 C14 C19 C22',
    'msd.py': 'C01 C03 C25 C04 C17 C22 C20 C18', 'vacf.py': 'C01 C03 C04 C22 C18', 'alpha2.py': 'C01 C03 C25 C22 C18',
    'qt.py': 'C02 C03 C25 C27 C04 C22 C18', 'chi4t.py': 'C02 C14 C03 C25 C20 C27 C04 C22 C18 C21', 's4kt.py': 'C28 C08 C27 C03 C18',
    'fkt.py': 'C09 C10 C03 C25 C20 C18 C04 C21 C23 C22', 'sk.py': 'C07 C15 C08 C18 C25 C22', 'ik.py': 'C11 C08 C22 C18',
    'fourierspace.py': 'C08 C07 C09 C10 C18 C28 C19', 'gr.py': 'C05 C06 C18 C23 C13 C32 C22', 'ba.py': 'C12 C23 C18 C22 C21',
    'linkedcells.py': 'C06 C05', 'partial.py': 'C13 C21 C15 C20 C18', 'filter.py': 'C14 C21 C20', 'susceptibility.py': 'C27 C19 C18',
    'api.py': 'C22 C19 C21', 'sacf.py': 'C29', 'core.py': 'C22 C20', 'progress.py': 'C22 C18', 'realspace.f90': 'C24 C05 C06 C12 C23 C02', 'fourierspace.f90': 'C24 C09 C23 C07',
    '../../bin/pp.py': 'C22', '../../bin/acf.py': 'C26'}


def line_starts(s):
    out = [0]
    for l in s.splitlines(True):
        out.append(out[-1] + len(l))
    return out


def python_mutants(s):
    st = line_starts(s)
    pos = lambda n: (st[n.lineno - 1] + n.col_offset, st[n.end_lineno - 1] + n.end_col_offset)
    tree = ast.parse(s)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('_log', 'logging', 'parser', 'setup_logging')):
            for x in ast.walk(n):
                doc.add(id(x))

    def between(a, b, old, new):
        i, j = pos(a)[1], pos(b)[0]
        k = s[i:j].find(old)
        if k >= 0:
            out.append((i + k, i + k + len(old), new))
    cmpmap = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='),
              ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is'), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in')}
    binmap = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '*'), ast.Pow: ('**', '*')}
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in cmpmap:
            between(n.left, n.comparators[0], *cmpmap[type(n.ops[0])])
        elif isinstance(n, ast.BinOp) and type(n.op) in binmap:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            between(n.left, n.right, *binmap[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], 'and' if isinstance(n.op, ast.And) else 'or', 'or' if isinstance(n.op, ast.And) else 'and')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            out.append((a, b, '(' + ast.get_source_segment(s, n.operand) + ')'))
        elif isinstance(n, ast.Constant):
            a, b = pos(n)
            if isinstance(n.value, bool):
                out.append((a, b, str(not n.value)))
            elif isinstance(n.value, int):
                out.append((a, b, str(n.value + 1)))
                if n.value > 0:
                    out.append((a, b, str(n.value - 1)))
            elif isinstance(n.value, float):
                out.append((a, b, repr(n.value * 1.25 + 0.1)))
        elif isinstance(n, ast.Attribute) and n.attr.endswith(('_0', '_1')):
            a, b = pos(n)
            out.append((b - 1, b, '1' if n.attr.endswith('_0') else '0'))
        elif isinstance(n, ast.Name) and n.id.endswith(('_0', '_1')) and isinstance(n.ctx, ast.Load):
            a, b = pos(n)
            out.append((b - 1, b, '1' if n.id.endswith('_0') else '0'))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = pos(n)
            if isinstance(n, ast.Expr) and id(n.value) in doc:
                continue
            out.append((a, b, 'pass'))
            if isinstance(n, ast.AugAssign):
                t = s[a:b]
                for o, p in (('+=', '='), ('-=', '+='), ('*=', '='), ('/=', '*=')):
                    if o in t:
                        k = a + t.index(o)
                        out.append((k, k + 2, p))
        elif isinstance(n, ast.If):
            a, b = pos(n.test)
            out.append((a, b, 'True'))
            out.append((a, b, 'False'))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'conjugate', 'strip', 'rint', 'sort'):
            a, b = pos(n)
            if n.func.attr == 'rint':
                out.append((a, b, 'numpy.floor' + s[pos(n.func)[1]:b]))
            elif n.args:
                out.append((a, b, ast.get_source_segment(s, n.args[0])))
            else:
                out.append((a, b, ast.get_source_segment(s, n.func.value)))
    return out


def fortran_mutants(s):
    out = []
    pats = [(r'(?<![<>=/])<(?![=/])', '<='), (r'(?<![<>=/])>(?!=)', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '/='), (r'/=', '=='), (r'\*\*2', '**3'),
            (r'(?<=[\w)]) \+ (?=[\w(])', ' - '), (r'(?<=[\w)]) - (?=[\w(])', ' + '), (r'(?<=[\w)])\*(?=[\w(])(?!\*)', '/'), (r'\.and\.', '.or.'),
            (r'\.or\.', '.and.'), (r'(?<=[=,( ])1(?=[,) \n])', '2'), (r'(?<=[=,( ])0(?=[,) \n])', '1'), (r'\+1', '+2'), (r'\bcycle\b', 'continue'), (r'\bi\b(?=\))', 'j'), (r'\bj\b(?=\))', 'i')]
    at = 0
    for l in s.splitlines(True):
        code = l.split('!')[0]
        if not re.match(r'\s*(real|integer|subroutine|function|use|end|complex|logical|implicit|contains|module|pure)', code) or '=' in code and '::' not in code:
            for p, new in pats:
                for m in re.finditer(p, code):
                    out.append((at + m.start(), at + m.end(), new))
        at += len(l)
    return out


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(CHECKS)
    rng = random.Random(seed)
    todo = []
    for f in files:
        s = open(os.path.join(SRC, PKG, f)).read()
        for a, b, new in (python_mutants(s) if f.endswith('.py') else fortran_mutants(s)):
            todo.append((f, a, b, new))
    rng.shuffle(todo)
    done = set()
    if os.path.exists(out):
        done = set(tuple(json.loads(l)['mutant']) for l in open(out))
    n = 0
    for f, a, b, new in todo:
        if n >= count:
            break
        if (f, a, b, new) in done:
            continue
        s = open(os.path.join(SRC, PKG, f)).read()
        t = s[:a] + new + s[b:]
        if f.endswith('.py'):
            try:
                ast.parse(t)
            except SyntaxError:
                continue
        n += 1
        w = tempfile.mkdtemp(prefix='mutant', dir='/tmp')
        try:
            subprocess.check_call(['cp', '-a', SRC + '/.', w])
            open(os.path.join(w, PKG, f), 'w').write(t)
            line = s[:a].count('\n') + 1
            orig, mut = s.splitlines()[line - 1].strip(), t.splitlines()[line - 1].strip()
            killed, notes = None, []
            for c in CHECKS[f].split():
                env = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
                try:
                    r = subprocess.run(['/opt/venv/bin/python', os.path.join(HERE, 'check.py'), c, '--tier', 'quick'], env=env, cwd=HERE, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=300)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1:
                    killed = c
                    break
                if rc != 0:
                    notes.append('%s:%s' % (c, rc))
            with open(out, 'a') as fh:
                fh.write(json.dumps(dict(mutant=[f, a, b, new], line=line, orig=orig, mut=mut, killed=killed, notes=notes)) + '\n')
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
