#!/usr/bin/env python3
"""
Development aid: systematic small changes to the code.
  sweep.py gen OUT.jsonl [file...]     makes the changes which the repository's tests do not notice
  sweep.py run OUT.jsonl RESULT.jsonl  runs the checks on each, until one notices
Works on copies of /repo under /tmp. CHECKS_DIR: where run.py is (default /verif).
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('SWEEP_REPO', '/repo')
VF = os.environ.get('CHECKS_DIR', '/verif')
FILES = {
    'sangfroid/format.py': 'C01 C02 C03',
    'sangfroid/animation.py': 'C18 C02 C01 C04 C10 C06',
    'sangfroid/keyframe.py': 'C18 C04',
    'sangfroid/field.py': 'C05 C18 C06 C04 C15 C03 C11',
    'sangfroid/registry.py': 'C15 C11',
    'sangfroid/util.py': 'C11 C15',
    'sangfroid/t.py': 'C12 C13 C14 C07 C18 C06',
    'sangfroid/layer/group.py': 'C10 C11 C06 C04 C15 C03',
    'sangfroid/layer/layer.py': 'C11 C05 C15 C10 C04 C06 C03',
    'sangfroid/layer/text.py': 'C15 C16 C05',
    'sangfroid/template/replacer.py': 'C19',
    'sangfroid/value/blendmethod.py': 'C05 C06 C15',
    'sangfroid/value/canvas.py': 'C10 C06 C04 C15',
    'sangfroid/value/color.py': 'C21 C05 C20 C06 C09',
    'sangfroid/value/gradient.py': 'C20 C04 C05 C06',
    'sangfroid/value/simple.py': 'C05 C06 C08 C07 C15 C04',
    'sangfroid/value/string.py': 'C05 C06 C03',
    'sangfroid/value/tbd.py': 'C15 C01',
    'sangfroid/value/transformation.py': 'C05 C04 C06 C08 C09',
    'sangfroid/value/value.py': 'C07 C08 C09 C06 C04 C05 C03',
    'sangfroid/value/vector.py': 'C05 C06 C04 C08 C15',
    'bywords/adjust.py': 'C16 C17',
    'bywords/bywords.py': 'C16 C17',
    'bywords/__main__.py': 'C16 C17',
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
OP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.Pow: '*'}
UNWRAP = {'str', 'list', 'sorted', 'bool', 'float', 'int', 'reversed', 'copy', 'tuple', 'round', 'abs', 'dict', 'set', 'Color', 'Decimal', 'Fraction', 'strip', 'lower', 'enumerate'}


def mutants(src):
    lines = src.split('\n')
    starts = [0]
    b = src.encode()
    bl = b.split(b'\n')
    off = [0]
    for l in bl:
        off.append(off[-1]+len(l)+1)

    def seg(n):
        return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset

    def text(n):
        a, z = seg(n)
        return b[a:z].decode()
    out = []

    def put(n, new, why):
        a, z = seg(n)
        out.append((n.lineno, why, (b[:a]+new.encode()+b[z:]).decode()))
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logger':
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(m) for m in ast.walk(n) if m is not n}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ('__repr__', 'as_python_expression', '_subfields'):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(n), id(n.value)}
        if isinstance(n, ast.keyword) and n.arg == 'doc':
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(m) for m in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '(%s) %s (%s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                put(n, '(%s) %s (%s)' % (text(n.left), {'<=': '>=', '<': '>', '>=': '<=', '>': '<'}[CMP[type(n.ops[0])]], text(n.comparators[0])), 'cmp')
            if isinstance(n.ops[0], ast.Is):
                put(n, '(%s) == (%s)' % (text(n.left), text(n.comparators[0])), 'is->==')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '('+o.join('(%s)' % text(v) for v in n.values)+')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '('+o2.join('(%s)' % text(v) for v in rest)+')', 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.BinOp) and type(n.op) in OP and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, '(%s) %s (%s)' % (text(n.left), OP[type(n.op)], text(n.right)), 'op')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), 'const')
            elif isinstance(v, (int, float)):
                put(n, '(%r)' % (v+1), 'const')
                if v not in (0, 1):
                    put(n, '(%r)' % (v-1), 'const')
            elif isinstance(v, str) and b[seg(n)[0]:seg(n)[0]+1] in (b'"', b"'"):
                put(n, repr(v+'_'), 'const')
                if v:
                    put(n, "''", 'const')
        elif isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if f in UNWRAP and len(n.args) >= 1:
                put(n, '(%s)' % text(n.args[0]), 'unwrap '+f)
            elif isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                put(n, '(%s)' % text(n.func.value), 'uncall '+f)
            for k in n.keywords:
                if k.arg and id(k) not in skip:
                    a, z = seg(k)
                    while b[z:z+1] in b' \n\t':
                        z += 1
                    if b[z:z+1] == b',':
                        z += 1
                    out.append((k.lineno, 'drop keyword '+k.arg, (b[:a]+b[z:]).decode()))
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, 'False', 'if False')
            if isinstance(n, ast.If):
                put(n.test, 'True', 'if True')
        elif isinstance(n, ast.IfExp):
            put(n, text(n.body), 'ifexp')
            put(n, text(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue, ast.Assert)):
            put(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'return None')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, 'True', 'comprehension if')
        elif isinstance(n, ast.FunctionDef):
            for d in n.args.defaults:
                if isinstance(d, ast.Constant) and d.value is None:
                    pass
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'ZeroDivisionError', 'except')
            put(n.type, 'Exception', 'except')
    seen = set()
    for line, why, s in out:
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, 'x', 'exec')
        except Exception:
            continue
        yield line, why, s


def copy_repo(d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))


def tests_pass(file, s):
    d = tempfile.mkdtemp(prefix='sweep-', dir='/tmp')
    try:
        c = os.path.join(d, 'repo')
        copy_repo(c)
        open(os.path.join(c, file), 'w').write(s)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=c)
        try:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'test'],
                               cwd=c, env=e, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return False
        return t.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        jobs = []
        for file in sys.argv[3:] or FILES:
            src = open(os.path.join(REPO, file)).read()
            ms = list(mutants(src))
            if file == 'sangfroid/layer/text.py':
                ms = ms[:10]
            jobs += [(file, *m) for m in ms]
        print(len(jobs), 'changes', flush=True)
        with open(sys.argv[2], 'w') as f, ThreadPoolExecutor(8) as ex:
            for (file, line, why, s), ok in zip(jobs, ex.map(lambda j: tests_pass(j[0], j[3]), jobs)):
                if ok:
                    f.write(json.dumps(dict(file=file, line=line, why=why, src=s))+'\n')
                    f.flush()
    else:
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.loads(l)['n'] for l in open(sys.argv[3])}
        with open(sys.argv[3], 'a') as f:
            for n, l in enumerate(open(sys.argv[2])):
                if n in done:
                    continue
                m = json.loads(l)
                d = tempfile.mkdtemp(prefix='sweep-', dir='/tmp')
                c = os.path.join(d, 'repo')
                copy_repo(c)
                open(os.path.join(c, m['file']), 'w').write(m['src'])
                by = None
                for prop in FILES[m['file']].split():
                    r = subprocess.run(['python3', VF+'/run.py', prop], cwd=VF, env=dict(os.environ, VERIF_REPO=c), capture_output=True, text=True)
                    if r.returncode == 1:
                        by = prop+' '+''.join(x for x in r.stdout.splitlines() if x.startswith('clause'))[:120]
                        break
                    if r.returncode != 0:
                        by = 'ERROR %s %s' % (prop, r.stderr[-200:])
                shutil.rmtree(d, ignore_errors=True)
                f.write(json.dumps(dict(n=n, file=m['file'], line=m['line'], why=m['why'], by=by))+'\n')
                f.flush()
