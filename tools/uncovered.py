"""uncovered.py OUT: statements of the package not executed"""
import ast, glob, os, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
seen = set(l.strip() for l in open(sys.argv[1]))
for f in sorted(glob.glob(REPO + '/atooms/postprocessing/*.py')):
    rel = f.replace(REPO + '/', '')
    src = open(f).read().split('\n')
    tree = ast.parse('\n'.join(src))
    lines = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)):
            for n in ast.walk(fn):
                if isinstance(n, ast.stmt) and n is not fn and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    lines.add(n.lineno)
    miss = [n for n in sorted(lines) if '%s:%d' % (rel, n) not in seen]
    print('==', rel, len(lines) - len(miss), 'of', len(lines))
    for n in miss:
        print('   %d: %s' % (n, src[n - 1]))
