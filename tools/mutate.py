"""mutate.py gen OUT.json | test IN.json OUT.json | check IN.json OUT.json
Systematic small changes to bit/, those that keep the stable tests passing, and which of them the checks notice.
A development tool (not a registered check); works in scratch copies only."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
FILES = ['bit/base32.py', 'bit/base58.py', 'bit/curve.py', 'bit/crypto.py', 'bit/format.py', 'bit/keygen.py', 'bit/network/fees.py', 'bit/network/meta.py',
         'bit/network/rates.py', 'bit/network/services.py', 'bit/transaction.py', 'bit/utils.py', 'bit/wallet.py', 'bit/constants.py']
CMP = {ast.Lt: ['<=', '!='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.BitOr: '&', ast.BitAnd: '|', ast.LShift: '>>', ast.RShift: '<<'}


def gen(out):
    muts = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        lines = src.split('\n')
        offs = [0]
        for l in lines:
            offs.append(offs[-1] + len(l) + 1)
        pos = lambda ln, col: offs[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
        span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
        tree = ast.parse(src)
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Raise):
                for c in ast.walk(n):
                    skip.add(id(c))
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(id(n)); skip.add(id(n.value))
            if isinstance(n, ast.FunctionDef) and n.name in ('__repr__',):
                for c in ast.walk(n):
                    skip.add(id(c))

        def add(a, b, new, kind, n):
            muts.append({'file': f, 'a': a, 'b': b, 'old': src[a:b], 'new': new, 'kind': kind, 'line': n.lineno})
        for n in ast.walk(tree):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                mid = src[a:b]
                if '(' in mid or ')' in mid:
                    continue
                for o in CMP[type(n.ops[0])]:
                    add(a, b, ' %s ' % o, 'cmp', n)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                a, b = span(n.left)[1], span(n.right)[0]
                if '(' in src[a:b] or ')' in src[a:b] or '\n' in src[a:b]:
                    if isinstance(n.op, ast.Add) and '(' not in src[a:b] and ')' not in src[a:b]:
                        # drop the right operand of a multi-line concatenation
                        add(a, span(n.right)[1], '', 'drop', n)
                    continue
                add(a, b, ' %s ' % BIN[type(n.op)], 'bin', n)
                if isinstance(n.op, ast.Add):
                    add(a, span(n.right)[1], '', 'drop', n)
            elif isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                if '(' in src[a:b] or ')' in src[a:b]:
                    continue
                add(a, b, ' or ' if isinstance(n.op, ast.And) else ' and ', 'bool', n)
                x = span(n.values[0]); y = span(n.values[-1])
                add(x[0], y[1], src[x[0]:x[1]], 'keep-left', n)
                if len(n.values) == 2:
                    z = span(n.values[1])
                    add(x[0], y[1], src[z[0]:z[1]], 'keep-right', n)
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), type(...))):
                a, b = span(n)
                if isinstance(n.value, bool):
                    add(a, b, str(not n.value), 'const', n)
                elif isinstance(n.value, (int, float)):
                    add(a, b, repr(n.value + 1), 'const', n)
                    if n.value:
                        add(a, b, repr(n.value - 1), 'const', n)
                elif isinstance(n.value, bytes) and len(n.value) == 1:
                    add(a, b, repr(bytes([n.value[0] ^ 1])), 'const', n)
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                a, b = span(n.test)
                add(a, b, 'not (%s)' % src[a:b], 'negate', n)
                if isinstance(n, ast.If):
                    add(a, b, 'False', 'never', n)
                    add(a, b, 'True', 'always', n)
            elif isinstance(n, ast.comprehension) and n.ifs:
                a, b = span(n.ifs[0])
                add(a, b, 'True', 'nofilter', n.target)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and hasattr(n, 'lineno'):
                a, b = span(n)
                if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                    continue
                add(a, b, 'pass', 'delete', n)
            elif isinstance(n, ast.Raise):
                pass
            elif isinstance(n, ast.Call):
                for kw in n.keywords:
                    if kw.arg:
                        a, b = span(kw)
                        c = src[b:].lstrip()
                        if c.startswith(','):
                            add(a, b + src[b:].index(',') + 1, '', 'dropkw', kw.value)
                        elif src[:a].rstrip().endswith(','):
                            add(src[:a].rindex(','), b, '', 'dropkw', kw.value)
                if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'list', 'int', 'any', 'all', 'min', 'max', 'sum', 'len'):
                    a, b = span(n.func)
                    alt = {'sorted': 'list', 'reversed': 'list', 'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}.get(n.func.id)
                    if alt:
                        add(a, b, alt, 'func', n)
            elif isinstance(n, ast.Slice):
                for p in (n.lower, n.upper):
                    if p is not None:
                        a, b = span(p)
                        add(a, b, '(%s) + 1' % src[a:b], 'slice', p)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.List) and not n.value.elts:
                pass
    # and raise statements: never raised
        for n in ast.walk(tree):
            if isinstance(n, ast.Raise):
                a, b = span(n)
                add(a, b, 'pass', 'noraise', n)
            if isinstance(n, ast.Attribute) and n.attr.endswith(('_testnet',)) and isinstance(n.ctx, ast.Load):
                a, b = span(n)
                add(a, b, src[a:b][:-8], 'net', n)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for p, q in (('MAIN_', 'TEST_'), ('TEST_', 'MAIN_')):
                    if n.id.startswith(p) and n.id.replace(p, q) in src:
                        a, b = span(n)
                        add(a, b, n.id.replace(p, q), 'net', n)
    ok = []
    for m in muts:
        s = open(os.path.join(REPO, m['file'])).read()
        t = s[:m['a']] + m['new'] + s[m['b']:]
        try:
            if ast.dump(ast.parse(t)) == ast.dump(ast.parse(s)):
                continue
        except SyntaxError:
            continue
        m['id'] = len(ok)
        ok.append(m)
    json.dump(ok, open(out, 'w'))
    print(len(ok))


def tree(m):
    w = tempfile.mkdtemp(prefix='mt-', dir='/tmp')
    shutil.copytree(REPO, w + '/r', ignore=shutil.ignore_patterns('.git', 'docs'))
    p = os.path.join(w, 'r', m['file'])
    s = open(p).read()
    assert s[m['a']:m['b']] == m['old']
    open(p, 'w').write(s[:m['a']] + m['new'] + s[m['b']:])
    return w


STABLE = None


def test1(m):
    w = tree(m)
    try:
        env = dict(os.environ, PYTHONPATH=w + '/r', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '-W', 'error:Unreachable API',
                                '--ignore=tests/network/test_fees.py'] + STABLE + sorted(x[len(w) + 3:] for x in glob.glob(w + '/r/tests/test_*.py')) + ['tests/network'], cwd=w + '/r', env=env, capture_output=True, timeout=100)
            return r.returncode == 0
        except Exception:
            return False
    finally:
        shutil.rmtree(w, ignore_errors=True)


def test(inp, out):
    global STABLE
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--collect-only', '--ignore=tests/network/test_fees.py', 'tests'],
                       cwd=REPO, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
    ids = [l for l in r.stdout.splitlines() if '::' in l]

    def name(i):
        q = i.split('::')
        return '.'.join([q[0][:-3].replace('/', '.')] + q[1:-1]) + '::' + q[-1]
    STABLE = ['--deselect=' + i for i in ids if name(i) not in st]
    ms = json.load(open(inp))
    surv, n = [], 0
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        for m, ok in zip(ms, ex.map(test1, ms)):
            n += 1
            if ok:
                surv.append(m)
                json.dump(surv, open(out, 'w'))
                print(n, 'of', len(ms), 'survived', len(surv), flush=True)
    json.dump(surv, open(out, 'w'))
    print(len(ms), len(surv))


CHECKS = {
    'bit/base32.py': 'C08 PAY', 'bit/base58.py': 'C08 C09', 'bit/curve.py': 'C09', 'bit/crypto.py': 'C04', 'bit/format.py': 'C09 C08 C23 PAY C21 C07 C26', 'bit/keygen.py': 'C21 C09 C27',
    'bit/network/fees.py': 'C14', 'bit/network/meta.py': 'PAY C18 C25', 'bit/network/rates.py': 'C15 C16', 'bit/network/services.py': 'C11 C13 C12 C22 C10 C28',
    'bit/transaction.py': 'PAY C06 C05 C07 C08 C10 C25', 'bit/utils.py': 'C07 PAY C09 C16', 'bit/wallet.py': 'C10 PAY C09 C23 C18 C05 C06 C25 C26 C27',
    'bit/constants.py': 'PAY C08 C16 C09'}


def check1(m):
    w = tree(m)
    res = {}
    try:
        for c in CHECKS[m['file']].split():
            env = dict(os.environ, VERIF_REPO=w + '/r')
            try:
                v = os.environ.get('VERIF_COPY', '/verif')
                r = subprocess.run([v + '/tools/payall.py'] if c == 'PAY' else [v + '/check.py', '--property', c], env=env, capture_output=True, text=True, timeout=900)
                rc, tail = r.returncode, (r.stdout + r.stderr)[-300:]
            except subprocess.TimeoutExpired:
                rc, tail = 'timeout', ''
            res[c] = rc
            if rc == 1:
                break
            if rc != 0:
                m['tail'] = tail
    finally:
        shutil.rmtree(w, ignore_errors=True)
    m['res'] = res
    caught = 1 in res.values()
    print('CAUGHT' if caught else 'MISSED', m['id'], m['file'], m['line'], m['kind'], repr(m['old'][:70]), '->', repr(m['new'][:70]), res, flush=True)
    return m


def check(inp, out):
    ms = json.load(open(inp))
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
        done = list(ex.map(check1, ms))
    json.dump(done, open(out, 'w'))
    print('missed %d of %d' % (sum(1 not in m['res'].values() for m in done), len(done)))


{'gen': gen, 'test': test, 'check': check}[sys.argv[1]](*sys.argv[2:])
