"""Loads the code under test from /repo with its surroundings (clock, network) replaced.

The real public API is exercised; only what the process would get from outside is simulated:
`time` (a controllable clock) and the HTTP transport (a simulated Internet, world.py).
"""
import importlib, os, signal, socket, sys, time, pickle, struct, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
for _k in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE', 'HTTP_PROXY', 'HTTPS_PROXY', 'ALL_PROXY', 'http_proxy', 'https_proxy', 'all_proxy'):
    os.environ.pop(_k, None)    # what `requests` would mix into every call


class Clock:
    """None -> real time; a number -> frozen at that number."""
    now = None


_real_time, _real_mono = time.time, time.monotonic


def _time():
    return _real_time() if Clock.now is None else Clock.now


def _mono():
    return _real_mono() if Clock.now is None else Clock.now


class Net:
    """The transport every HTTP request of the code under test goes through."""
    handler = None      # callable(PreparedRequest) -> (status, text) or raises
    count = 0
    cap = 5000
    timeout = None      # of the request being handled
    verify = None       # likewise


class NetRunaway(BaseException):
    pass


_loaded = False
_START = _real_time()
TOTAL = 700 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 5000


class Broken:
    """A scenario the driver could not finish because of what the code under test did."""
    def __init__(self, tb):
        self.tb = tb


def _failure():
    """What an exception in the driver means: the library's doing, or the machinery's."""
    t, e, tb = sys.exc_info()
    text = traceback.format_exc()
    frames = traceback.extract_tb(tb)
    if frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(REPO) + os.sep):
        blame = True
    else:
        blame = issubclass(t, (ValueError, TypeError, KeyError, IndexError, ArithmeticError, AssertionError, RecursionError))
    return pickle.dumps((True, Broken(text))) if blame else pickle.dumps((False, text))


def load(clock=True):
    """Import bit from REPO (once)."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    if clock:
        time.time = _time
        time.monotonic = _mono
    import requests, requests.adapters, logging
    logging.disable(logging.CRITICAL)

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        Net.count += 1
        if Net.count > Net.cap:
            raise NetRunaway()
        if Net.handler is None:
            raise requests.exceptions.ConnectionError('no network')
        Net.timeout, Net.verify = timeout, verify
        status, text = Net.handler(request)
        r = requests.models.Response()
        r.status_code = status
        r._content = text.encode('utf-8') if isinstance(text, str) else text
        r._content_consumed = True
        r.headers['Content-Type'] = 'application/json; charset=utf-8'
        r.encoding = 'utf-8'
        r.url = request.url
        r.request = request
        r.reason = {200: 'OK', 404: 'Not Found'}.get(status, 'Error')
        return r

    requests.adapters.HTTPAdapter.send = send

    def refuse(self, *a, **k):
        raise ConnectionRefusedError('network is disabled')
    _sock_connect = socket.socket.connect

    def connect(self, addr):
        if self.family == getattr(socket, 'AF_UNIX', None):
            return _sock_connect(self, addr)
        return refuse(self)
    socket.socket.connect = connect
    import bit  # noqa


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def call(f, *a, seconds=20, **k):
    """Call into the code under test: (value, None) or (None, exception)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        try:
            return f(*a, **k), None
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as e:      # noqa: B902 - hangs and exits are outcomes too
            return None, e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return None, e


def exc_kinds(e):
    """Names of the exception's classes, most specific first ([] for none)."""
    if e is None:
        return []
    return [c.__name__ for c in type(e).__mro__ if c not in (object,)]


# ------------------------------------------------------------------ forked replay
def run_many(fn, scenarios, procs=None, fresh=False, budget=600, clock=True):
    """fn(scenario) -> record, in forked children.  fresh=True: one process per scenario.

    Returns a list aligned with scenarios; an entry is None when its process died."""
    load(clock=clock)
    n = len(scenarios)
    budget = max(60, min(budget, _START + TOTAL - _real_time()))
    procs = min(procs or os.cpu_count() or 4, max(1, n))
    results = [None] * n
    errs = []
    groups = [list(range(i, n, procs)) for i in range(procs)]
    kids = []
    deadline = _real_time() + budget
    for g in groups:
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                with os.fdopen(wfd, 'wb') as w:
                    for i in g:
                        if fresh:
                            blob = _in_child(fn, scenarios[i])
                        else:
                            try:
                                blob = pickle.dumps((True, fn(scenarios[i])))
                            except BaseException:
                                blob = _failure()
                        w.write(struct.pack('>II', i, len(blob)) + blob)
                        w.flush()
            finally:
                os._exit(0)
        os.close(wfd)
        kids.append((pid, rfd))
    import select
    bufs = {rfd: b'' for _, rfd in kids}
    open_ = set(bufs)
    while open_:
        left = deadline - _real_time()
        if left <= 0:
            break
        r, _, _ = select.select(list(open_), [], [], min(left, 5))
        for fd in r:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_.discard(fd)
                continue
            bufs[fd] += chunk
            b = bufs[fd]
            pos = 0
            while len(b) - pos >= 8:
                i, ln = struct.unpack('>II', b[pos:pos + 8])
                if len(b) - pos - 8 < ln:
                    break
                ok, val = pickle.loads(b[pos + 8:pos + 8 + ln])
                if ok:
                    results[i] = val
                else:
                    errs.append((i, val))
                pos += 8 + ln
            bufs[fd] = b[pos:]
    for pid, rfd in kids:
        try:
            if rfd in open_:
                os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        os.close(rfd)
    if errs:
        i, tb = errs[0]
        from .core import MachineryError
        raise MachineryError('driver failed on scenario %r\n%s' % (scenarios[i], tb))
    return results


def _in_child(fn, scn):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            try:
                blob = pickle.dumps((True, fn(scn)))
            except BaseException:
                blob = _failure()
            with os.fdopen(wfd, 'wb') as w:
                w.write(blob)
        finally:
            os._exit(0)
    os.close(wfd)
    data = b''
    with os.fdopen(rfd, 'rb') as r:
        data = r.read()
    os.waitpid(pid, 0)
    return data or pickle.dumps((True, None))
