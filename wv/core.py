"""Worker side of the monitors: case loop, observation counters, violations."""
import hashlib
import os
import random
import signal
import sys
import threading
import time
import traceback

REPO = '/repo/webauthn_rp'
CASE_CPU_SECONDS = 100      # cases take well under a second


class Violation(Exception):
    """Raised by an oracle when an execution contradicts the property."""


class CpuTimeout(BaseException):
    """Not an Exception, so that no handler in the code under test swallows it."""


class Blocked(BaseException):
    """The code under test waits for something that nothing will bring about."""


class BlockWatch:
    """Tells waiting for ever from slowness: at `ticks` looks in a row every watched thread stood at the same instruction and had
    neither run nor been kept from running, and one of them stood inside the code under test. Each look is itself a sign that the
    process gets to run, so a busy or suspended machine is not taken for a blocked thread."""

    def __init__(self, ticks):
        self.ticks, self.last, self.n = ticks, None, 0

    @staticmethod
    def stat(tid):
        with open('/proc/self/task/%d/schedstat' % tid) as f:
            run, wait, _ = f.read().split()
        return int(run), int(wait)

    def tick(self, threads):
        """`threads`: [(native thread id, innermost frame)] of all threads that could still go on."""
        try:
            now = [(tid, id(f), f.f_lasti) + self.stat(tid) for tid, f in threads]
        except (OSError, ValueError):
            self.last = None
            return False
        last, self.last = self.last, now
        same = (last is not None and now and len(now) == len(last)
                and all(a[:3] == b[:3] and b[3] - a[3] < 2e7 and b[4] - a[4] < 1e8 for a, b in zip(last, now)))
        self.n = self.n + 1 if same and any(frame_in_repo(f) for _, f in threads) else 0
        return self.n >= self.ticks


def frame_in_repo(f):
    while f is not None:
        if os.path.realpath(f.f_code.co_filename).startswith(REPO):
            return True
        f = f.f_back
    return False


def join_all(threads, done=None):
    """Wait for threads to end; True when they are blocked for good inside the code under test instead."""
    watch = BlockWatch(8)
    while True:
        alive = [t for t in threads if t.is_alive()]
        if not alive:
            return False
        alive[0].join(2)
        frames = sys._current_frames()
        if watch.tick([(t.native_id, frames[t.ident]) for t in threads if t.is_alive() and t.ident in frames]):
            return True


def rng_for(seed, prop, kind, index):
    return random.Random('%s:%s:%s:%s' % (seed, prop, kind, index))


def through_repo(tb):
    """Did this traceback pass through the code under test?"""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO):
            return True
        tb = tb.tb_next
    return False


class Ctx:
    """What one worker observed. One instance per worker process."""

    def __init__(self, prop, seed, tier, optimized):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.optimized = optimized
        self.counts = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.kind = None
        self.index = None
        self.stop = False        # nothing further can be run in this process
        self.state = {}          # long-lived objects shared by the cases of this worker

    # --- observation -----------------------------------------------------
    def count(self, category, n=1):
        self.counts[category] = self.counts.get(category, 0) + n

    def judged(self, key=None, nontrivial=True):
        """One execution was judged by the oracle; `key` identifies it for the distinct count."""
        self.evaluations += 1
        if nontrivial and key is not None:
            h = hashlib.blake2b(printed(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
            self.distinct.add(h)

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({'kind': self.kind, 'index': self.index, **kw})

    def violation(self, message, **detail):
        self.violations.append({
            'kind': self.kind, 'index': self.index, 'message': message,
            'detail': {k: short(v) for k, v in detail.items()},
        })

    # --- case loop ---------------------------------------------------------
    def run_case(self, fn, kind, index):
        self.kind, self.index = kind, index
        rng = rng_for(self.seed, self.prop, kind, index)
        try:
            with_cpu_limit(CASE_CPU_SECONDS, lambda: fn(self, rng, index))
        except Violation as e:
            self.violation(str(e))
        except CpuTimeout as e:
            tb = ''.join(traceback.format_tb(e.__traceback__)[-8:])
            if through_repo(e.__traceback__):
                self.violation('a case of this kind used more than %d s of CPU time inside the library' % CASE_CPU_SECONDS, traceback=tb)
            else:
                self.errors.append({'kind': kind, 'index': index, 'traceback': 'CPU limit\n' + tb})
        except Blocked as e:
            self.violation('the library waits for ever', traceback=''.join(traceback.format_tb(e.__traceback__)[-8:]))
            self.stop = True
        except Exception as e:  # noqa
            tb = traceback.format_exc(limit=-8)
            if through_repo(e.__traceback__):
                self.violation('the library raised unexpectedly on valid use: %s: %s'
                               % (type(e).__name__, short(str(e))), traceback=tb)
            else:
                self.errors.append({'kind': kind, 'index': index, 'traceback': tb})


def short(v, limit=1500):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception:  # noqa: e.g. integers beyond the interpreter's printing limit
        s = '<%s that cannot be printed>' % type(v).__name__
    return s if len(s) <= limit else s[:limit] + '...<%d chars>' % len(s)


def printed(key):
    try:
        return repr(key)
    except ValueError:       # integers beyond the interpreter's printing limit
        return repr(dump(key))


def require(cond, message, **detail):
    if not cond:
        raise Violation(message + (' | ' + ', '.join('%s=%s' % (k, short(v, 400)) for k, v in detail.items())
                                   if detail else ''))


# --- CPU-time guard (hang detection independent of machine load) ------------
def _on_prof(signum, frame):
    raise CpuTimeout()


def with_cpu_limit(seconds, fn):
    watch, tid = BlockWatch(10), threading.get_native_id()

    def on_alarm(signum, frame):
        if watch.tick([(tid, frame)]):
            raise Blocked()
    old = signal.signal(signal.SIGVTALRM, _on_prof)
    old_alarm = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        signal.signal(signal.SIGALRM, old_alarm)


# --- structural snapshot of library objects -----------------------------------
def dump(x, depth=0):
    """A comparable, printable structural snapshot that ignores object identity."""
    import enum
    if depth > 30:
        return '<deep>'
    if type(x) is int and x.bit_length() > 10000:
        return ('long', hex(x))     # beyond the interpreter's printing limit
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x if not isinstance(x, (bool,)) else ('bool', x)
    if isinstance(x, enum.Enum):
        return ('enum', type(x).__qualname__, x.name, x.value)
    if isinstance(x, dict):
        return ('dict', sorted(((printed(k), dump(v, depth + 1)) for k, v in x.items()), key=lambda t: t[0]))
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('nt', type(x).__name__, tuple((f, dump(getattr(x, f), depth + 1)) for f in x._fields))
    if isinstance(x, (list, tuple)):
        return ('seq', type(x).__name__, tuple(dump(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted((repr(dump(v, depth + 1)) for v in x))))
    if hasattr(x, 'public_bytes') and hasattr(x, 'fingerprint'):
        from cryptography.hazmat.primitives.serialization import Encoding
        return ('cert', x.public_bytes(Encoding.DER))
    if hasattr(x, '__dict__'):
        return ('obj', type(x).__name__, tuple(sorted((k, dump(v, depth + 1)) for k, v in vars(x).items() if not k.startswith('_'))))
    return ('repr', repr(x))
