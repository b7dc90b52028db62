"""Runs one vanity search of the code under test, with the schedule stretched as asked.

argv: repo, JSON scenario.  Prints the function's own output, then a line "@@RESULT <json>"."""
import json, os, sys, time
sys.dont_write_bytecode = True
repo, scn = sys.argv[1], json.loads(sys.argv[2])
sys.path.insert(0, repo)
import multiprocessing, multiprocessing.synchronize as sync, multiprocessing.queues as mq, multiprocessing.process as mp

_sleep = time.sleep
SCALE, PAUSE = 0.1, 0.45
MAIN = os.getpid()


def me():
    """1, 2, ... for workers, 0 for the parent."""
    i = multiprocessing.current_process()._identity
    return i[0] if i else 0


def pause(at):
    if scn['at'] == at and (me() == scn['who'] or (scn['who'] == 0 and me() != 0)):
        _sleep(PAUSE)


time.sleep = lambda s: _sleep(s * SCALE if os.getpid() == MAIN else s)


def before(cls, name, at):
    f = getattr(cls, name)

    def g(self, *a, **k):
        pause(at)
        return f(self, *a, **k)
    setattr(cls, name, g)


def after(cls, name, at):
    f = getattr(cls, name)

    def g(self, *a, **k):
        r = f(self, *a, **k)
        pause(at)
        return r
    setattr(cls, name, g)


before(mq.Queue, 'put', 'put')
before(mq.SimpleQueue, 'put', 'put')
before(sync.Event, 'set', 'raise')
after(sync.Event, 'set', 'raised')
after(mq.Queue, 'put', 'queued')
before(mp.BaseProcess, 'run', 'start')
_is = sync.Event.is_set
_seen = [0]


def is_set(self):
    r = _is(self)
    _seen[0] += 1
    if scn['at'] == 'checked' and _seen[0] in (1, 3):
        pause('checked')
    return r


sync.Event.is_set = is_set
if scn.get('cpus'):
    multiprocessing.cpu_count = lambda: scn['cpus']
import bit.keygen as kg
if scn['at'] == 'unlucky' and hasattr(kg, 'ECPrivateKey'):
    # one worker never draws a matching key: the search must end on another's
    from bit.format import public_key_to_address as _p2a
    _draw, _full = kg.ECPrivateKey, scn['prefix'] if scn['prefix'][:1] == '1' else '1' + scn['prefix']

    def unlucky(*a, **k):
        key = _draw(*a, **k)
        while me() == scn['who'] and _p2a(key.public_key.format()).startswith(_full):
            key = _draw(*a, **k)
        return key
    kg.ECPrivateKey = unlucky
exc, val = [], None
try:
    if scn['cli']:
        from bit.cli import bit as main
        main(['gen'] + ([] if scn['cores'] == 'default' else ['--cores', str(scn['cores'])]) + ['--', scn['prefix']], standalone_mode=False)
    else:
        c = scn['cores']
        val = kg.generate_matching_address(scn['prefix'], **({} if c == 'default' else {'cores': c if c == 'all' or scn['who'] == 1 else int(c)}))
except BaseException as e:
    exc = [c.__name__ for c in type(e).__mro__]
pair = list(val) if isinstance(val, (tuple, list)) and len(val) == 2 else []
sys.stdout.write('\n@@RESULT ' + json.dumps({'exc': exc, 'val': [str(x) for x in pair]}) + '\n')
sys.stdout.flush()
