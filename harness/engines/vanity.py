"""C21: the vanity address search."""
import concurrent.futures, json, os, re, signal, subprocess, sys, tempfile, time
from .. import btc
from ..core import VERIF, MachineryError

REPO = os.environ.get('VERIF_REPO', '/repo')
CHILD = os.path.join(VERIF, 'harness', 'vanity_child.py')
ADDR = re.compile(r'[1-9A-HJ-NP-Za-km-z]{50,53}|1[1-9A-HJ-NP-Za-km-z]{24,34}')


def pairs_of(text, val):
    """Every (WIF, address) reported: printed labels, or a printed/returned pair."""
    out = []
    wifs = re.findall(r'\b[5KL][1-9A-HJ-NP-Za-km-z]{50,51}\b', text)
    addrs = [a for a in re.findall(r'\b1[1-9A-HJ-NP-Za-km-z]{24,34}\b', text)]
    for i in range(max(len(wifs), len(addrs))):
        out.append([wifs[i] if i < len(wifs) else '', addrs[i] if i < len(addrs) else ''])
    if val:
        out.append(val)
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return seen


def one(s, limit):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH',)}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    with tempfile.TemporaryFile('w+') as fo:
        p = subprocess.Popen([sys.executable, CHILD, REPO, json.dumps(s)], stdout=fo, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True, env=env, cwd='/')
        hang = False
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            hang = True
        left = False
        for _ in range(60):
            try:
                os.killpg(p.pid, 0)
            except ProcessLookupError:
                left = False
                break
            left = True
            if hang:
                break
            time.sleep(.1)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if hang:
            p.wait()
        fo.seek(0)
        text = fo.read()
    m = re.search(r'^@@RESULT (.*)$', text, re.M)
    res = json.loads(m.group(1)) if m else {'exc': [], 'val': []}
    if m is None and not hang:
        res['exc'] = ['Died']
    body = re.sub(r'^@@RESULT .*$', '', text, flags=re.M)
    # a worker's progress line may share the line with nothing else; only labels and pairs matter
    ps = pairs_of(body, res['val'])
    return {'prefix': [ord(c) for c in s['prefix']], 'exc': res['exc'], 'hang': hang, 'left': left,
            'pairs': [{'wif': [ord(c) for c in w], 'addr': [ord(c) for c in a]} for w, a in ps]}


def run_c21(ctx):
    for n, k in ((1, 3), (2, 4), (3, 3)) if ctx.quick else ((1, 5), (2, 6), (3, 5), (4, 4)):
        ctx.model_check('Vanity', 'CONSTANTS N = %d\nMaxKeys = %d\nSPECIFICATION Spec\nINVARIANTS ReportsMatch AtMostOne EndsWithOne QueueMatches\nPROPERTY Ends\n' % (n, k))
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    cfg = 'CONSTANTS Prefixes = {%s}\nCores = {%s}\nPauses = {%s}\nINIT Init\nNEXT Next\n'
    pauses = ['none', 'start', 'checked', 'raise', 'raised', 'put', 'queued']
    scns = ctx.generate('VanityGen', cfg % (q(['1', 'A', '1B', 'a']), q(['1', '2', '3']), q(pauses)))
    scns += ctx.generate('VanityGen', cfg % (q(['', '1', '1Q', 'Ab', '1x', 'z', '11', 'BC', '1a2'] if not ctx.quick else ['', '1', '1Q', 'Ab', 'z']),
                                             q(['1', '2', '4', '8', 'all', 'default', '0', '99']), q(['none'])))
    # one of several workers is out of luck for good
    scns += [dict(s, cpus=4) for s in ctx.generate('VanityGen', cfg % (q(['1B', '1Q', 'a', 'Z']), q(['2', '3', '4']), q(['unlucky']))) if s['who']]
    # characters that cannot occur, at every position
    bad = []
    for c in '0OIl +/-_é\n*':
        for pre in ('', '1', 'A', '1AB'):
            for post in ('', 'a', '1'):
                bad.append({'prefix': pre + c + post, 'cores': '2', 'who': 0, 'at': 'none', 'cli': len(bad) % 3 == 0})
    if ctx.quick:
        scns = [s for i, s in enumerate(scns) if (i + ctx.seed) % 2 == 0]
        bad = [s for i, s in enumerate(bad) if i % 2 == 0 or s['prefix'][:1] not in '1A']
    scns += bad
    out = [None] * len(scns)

    def go(todo, limit):
        hung = []

        def f(i):
            if len(hung) < 8:       # enough hang: no need to wait for the rest
                out[i] = one(scns[i], limit)
                if out[i]['hang']:
                    hung.append(i)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(f, todo))
        # a search that seemed to hang is run again alone, with more time, before it is believed
        for i in hung[:2]:
            out[i] = one(scns[i], 90)
        return [i for i in hung[:2] if out[i]['hang']], hung
    sure, hung = go(range(len(scns)), 40)
    if not sure and hung:
        go([i for i in range(len(scns)) if out[i] is None or out[i]['hang']], 120)
    elif sure:
        # the others that did not come back say nothing more
        out = [None if r and r['hang'] and i not in sure else r for i, r in enumerate(out)]
    recs = [{'scn': s, 'rec': r} for s, r in zip(scns, out) if r is not None]
    ctx.judge('VanityTrace', recs)
    pairs = [tuple(map(tuple, (p['wif'], p['addr']))) for r in recs for p in r['rec']['pairs']]
    if len(set(pairs)) != len(pairs):
        ctx.violate(['key-repeated'], {'pairs': [str(p) for p in pairs if pairs.count(p) > 1][:4]})
    ctx.notes['searches'] = len(recs)
    ctx.notes['pairs_reported'] = len(pairs)
