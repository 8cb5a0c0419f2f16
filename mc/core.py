"""
Explorer core: deterministic exhaustive enumeration of finite spaces, on 8 processes, with watchdog, crash
detection, minimal counterexamples, replay files, known findings and measured evidence.

A check module (mc/checks/cNN.py) defines:

  PROPERTY = 'CNN', LEVEL, ASSUMPTIONS = [...]
  def spaces(tier): -> list of Space

A Space enumerates JSON-able cases in a fixed, simplest-first order (never sampled), and `run(case, ctx)` executes the real
code on the case and compares it with the reference, calling ctx.fail(key, message) on a disagreement.
"""

import hashlib
import json
import mmap
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('MC_WORKERS', '8'))
DISTINCT_CAP = 200000


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key
        self.message = message


class CaseTimeout(BaseException):
    pass


class Space:
    """
    name     unique inside the check
    gen      () -> iterator of JSON-able cases
    run      (case, ctx) -> None
    what     one line: what is enumerated and up to which bound
    setup    () -> None, called once in every worker before its first case (e.g. set TZ)
    cpu      CPU seconds a single case may take (a correct tree takes milliseconds)
    size     expected number of cases, or None
    """

    def __init__(self, name, gen, run, what, setup=None, cpu=20.0, sharded=False):
        self.name = name
        self.gen = gen
        self.run = run
        self.what = what
        self.setup = setup
        self.cpu = cpu
        self.sharded = sharded


class Ctx:
    """Counters and the failure hook a case runs with."""

    __slots__ = ('states', 'transitions', 'traces', 'distinct', 'distinct_full', 'nontrivial', 'notes', 'known', 'known_hits', 'space')

    def __init__(self, space_name, known):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.distinct_full = False
        self.nontrivial = 0
        self.notes = {}
        self.known = known
        self.known_hits = {}
        self.space = space_name

    def outcome(self, obj):
        """Record one observed outcome (its digest); used for the distinct-outcome count."""
        if len(self.distinct) < DISTINCT_CAP:
            self.distinct.add(hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest())
        else:
            self.distinct_full = True

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, key, message):
        if key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(key, message)


# ---------------------------------------------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------------------------------------------

def load_known(prop):
    """{key: what} of the listed (unrepaired) findings of a property."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path, encoding='utf-8') as fh:
        doc = json.load(fh)
    return {f['key']: f['what'] for f in doc.get('findings', []) if f['property'] == prop}


# ---------------------------------------------------------------------------------------------------------------
# one case
# ---------------------------------------------------------------------------------------------------------------

def _alarm(_sig, _frame):
    raise CaseTimeout()


_HARNESS_DIR = os.path.dirname(os.path.abspath(__file__))


def run_case(space, case, ctx):
    """Run one case under the CPU watchdog. Returns None or (key, message)."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, space.cpu, 1.0)
    try:
        space.run(case, ctx)
        return None
    except Violation as exc:
        return (exc.key, exc.message)
    except CaseTimeout:
        return ('timeout', f'no answer within {space.cpu} s of CPU time')
    except MemoryError:
        return ('memory', 'memory limit exhausted')
    except Exception as exc:  # an exception of the code under test that the case did not expect
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return ('exception:' + type(exc).__name__, traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# ---------------------------------------------------------------------------------------------------------------
# worker pool
# ---------------------------------------------------------------------------------------------------------------

_NONE = (1 << 62)


def _limits():
    limit = 3 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(int(os.environ.get('MC_RECURSION', '1000')))


def _cases(space, w, n):
    """(idx, case) of one shard."""
    if space.sharded:
        yield from space.gen(w, n)
        return
    for idx, case in enumerate(space.gen()):
        if idx % n == w:
            yield idx, case


def _worker(space, w, n, known, shared, deadline, wfd):
    _limits()
    ctx = Ctx(space.name, known)
    count = 0
    done = True
    violation = None
    samples = []
    if space.setup is not None:
        space.setup()
    for idx, case in _cases(space, w, n):
        struct.pack_into('q', shared, 8 + 8 * w, idx)
        if idx > struct.unpack_from('q', shared, 0)[0]:
            break  # a smaller counterexample is already known
        if (count & 15) == 0 and time.time() > deadline:
            done = False
            break
        count += 1
        if count in (2, 50, 1000, 20000):
            samples.append((idx, case))
        res = run_case(space, case, ctx)
        if res is not None:
            violation = (idx, case, res[0], res[1])
            if idx < struct.unpack_from('q', shared, 0)[0]:
                struct.pack_into('q', shared, 0, idx)
            break
    out = pickle.dumps({
        'count': count, 'done': done, 'violation': violation, 'states': ctx.states, 'transitions': ctx.transitions,
        'traces': ctx.traces, 'distinct': ctx.distinct, 'distinct_full': ctx.distinct_full, 'nontrivial': ctx.nontrivial,
        'notes': ctx.notes, 'known_hits': ctx.known_hits, 'samples': samples
    })
    with os.fdopen(wfd, 'wb') as fh:
        fh.write(out)


def run_space(space, known, deadline, workers=None):
    """Explore a space on a fork pool. Returns the merged result dict."""
    n = workers or WORKERS
    shared = mmap.mmap(-1, 8 + 8 * n)
    struct.pack_into('q', shared, 0, _NONE)
    for w in range(n):
        struct.pack_into('q', shared, 8 + 8 * w, -1)
    sys.stdout.flush()
    sys.stderr.flush()
    procs = []
    for w in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rfd)
                for _, fd in procs:
                    os.close(fd)
                _worker(space, w, n, known, shared, deadline, wfd)
                code = 0
            except BaseException:  # pylint: disable=broad-exception-caught
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid, rfd))
    res = {'count': 0, 'done': True, 'states': 0, 'transitions': 0, 'traces': 0, 'distinct': set(), 'distinct_full': False,
           'nontrivial': 0, 'notes': {}, 'known_hits': {}, 'violations': [], 'samples': [], 'harness_error': None}
    for w, (pid, rfd) in enumerate(procs):
        with os.fdopen(rfd, 'rb') as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            if os.WIFSIGNALED(status):
                idx = struct.unpack_from('q', shared, 8 + 8 * w)[0]
                case = next((c for i, c in _cases(space, w, n) if i == idx), None)
                res['violations'].append((idx, case, f'crash:signal{os.WTERMSIG(status)}', 'the interpreter process was killed', w))
                struct.pack_into('q', shared, 0, min(idx, struct.unpack_from('q', shared, 0)[0]))
            else:
                res['harness_error'] = f'worker {w} of space {space.name} failed with status {status}'
            continue
        part = pickle.loads(data)
        for key in ('count', 'states', 'transitions', 'traces', 'nontrivial'):
            res[key] += part[key]
        res['done'] = res['done'] and part['done']
        res['distinct_full'] = res['distinct_full'] or part['distinct_full']
        if len(res['distinct']) < DISTINCT_CAP:
            res['distinct'] |= part['distinct']
        else:
            res['distinct_full'] = True
        for key in ('notes', 'known_hits'):
            for k, v in part[key].items():
                res[key][k] = res[key].get(k, 0) + v
        if part['violation'] is not None:
            res['violations'].append((*part['violation'], w))
        res['samples'].extend(part['samples'])
    res['violations'].sort(key=lambda v: v[0])
    res['samples'].sort(key=lambda s: s[0])
    return res


def _in_child(fn):
    """Run fn() in a forked child and return its (picklable) result, or ('crash', ...)."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rfd)
            _limits()
            data = pickle.dumps(fn())
            with os.fdopen(wfd, 'wb') as fh:
                fh.write(data)
            code = 0
        except BaseException:  # pylint: disable=broad-exception-caught
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return (f'crash:signal{os.WTERMSIG(status)}', 'the interpreter process was killed')
    if not data:
        return ('harness', f'child failed with status {status}')
    return pickle.loads(data)


def confirm(space, violation, known, n):
    """Re-run a violation alone and, failing that, with the history of its shard. Returns (kind, key, message) or None."""
    idx, case, _key, _message, w = violation

    def alone():
        if space.setup is not None:
            space.setup()
        return run_case(space, case, Ctx(space.name, known))

    def shard():
        if space.setup is not None:
            space.setup()
        ctx = Ctx(space.name, known)
        for i, c in _cases(space, w, n):
            res = run_case(space, c, ctx)
            if i >= idx or res is not None:
                return res
        return None

    res = _in_child(alone)
    if res is not None:
        return ('case', *res)
    res = _in_child(shard)
    if res is not None:
        return ('shard', *res)
    return None
