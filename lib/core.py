"""Common machinery of every check: verdicts, evidence, known findings, replay,
and the instrumentation that records which code of /repo actually ran.

A check observes executions of the real code and calls Run.violation() for each
one its oracle rejects.  Three verdicts exist: held (exit 0), violated (exit 1
with a VIOLATION line), inconclusive (exit 2: the monitors did not see enough,
or the harness itself failed), so that an empty run is never counted as a pass.
"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_REPORTED = 10
SUB = float(os.environ.get('VERIF_SUB') or 0)


def import_repo():
    """Import opendis from /repo's working tree, and nothing else."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import opendis
    where = os.path.realpath(os.path.dirname(opendis.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'opendis')):
        raise RuntimeError(f'opendis was imported from {where}, not {REPO}')


class LineMonitor:
    """Records the distinct source lines of /repo/opendis that executed."""
    TOOL = 4

    def __init__(self):
        self.lines = {}
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None or os.environ.get('VERIF_NO_LINES'):
            return
        try:
            mon.use_tool_id(self.TOOL, 'verif-lines')
        except ValueError:
            return
        prefix = os.path.join(os.path.realpath(REPO), 'opendis') + os.sep
        lines = self.lines

        def on_line(code, line):
            fn = code.co_filename
            if os.path.realpath(fn).startswith(prefix):
                lines.setdefault(os.path.basename(os.path.dirname(fn)) + '/' +
                                 os.path.basename(fn), set()).add(line)
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
            self.on = False

    def summary(self):
        return {k: len(v) for k, v in sorted(self.lines.items())}


def source_constants():
    """Literals of the code under test: a dictionary for the generators (as a
    fuzzer would use).  Only reach depends on it, never a verdict."""
    ints, floats, strs = set(), set(), set()
    for fn in glob.glob(os.path.join(REPO, 'opendis', '**', '*.py'),
                        recursive=True):
        try:
            tree = ast.parse(open(fn, encoding='utf-8').read())
        except (OSError, SyntaxError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) < 2 ** 64:
                    ints.update((v - 1, v, v + 1))
                elif isinstance(v, float):
                    floats.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 12:
                    strs.add(v)
    return sorted(ints), sorted(floats), sorted(strs)


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'hex': bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    return repr(x)


class Inconclusive(Exception):
    pass


# how many times the basic number of random cases a quick check runs
DEEPER = {'D': 8, 'G': 8, 'G06': 3, 'D03': 4, 'R': 4, 'W': 3, 'W05': 6, 'W12': 8,
          'W10': 2, 'W11': 2, 'E': 2}


class Run:
    def __init__(self, pid, tier, seed, rule, technique='', replay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rule = rule
        self.rng = random.Random(f'{pid}/{seed}')
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.observed = {}
        self.nviol = 0
        self.viol = []
        self.sigs = set()
        self.known_hits = {}
        self.known = load_known(pid)
        self.assumptions = []
        self.minimum = {}
        self.lines = LineMonitor()
        self.replay_filter = replay
        self.budget = None

    thorough = property(lambda self: self.tier == 'thorough')

    def scale(self, quick, thorough):
        n = thorough if self.thorough else quick
        if n is quick and isinstance(n, int) and thorough > quick:
            n = min(thorough, quick * DEEPER.get(
                self.pid, DEEPER[self.pid[0]]))
        if SUB and isinstance(n, int):
            return max(min(n, 12), int(n * SUB))
        return n[:3] if SUB and isinstance(n, (tuple, list)) else n

    def optimised(self):
        """A part of the check again, in an interpreter that drops assert
        statements and docstrings: what the code does is not in either."""
        if SUB or self.nviol:
            return
        out = tempfile.mkdtemp(prefix='verif-sub-')
        try:
            env = dict(os.environ, VERIF_SUB='0.15', VERIF_SUB_OUT=out,
                       VERIF_NO_LINES='1', PYTHONHASHSEED='5', LC_ALL='C',
                       PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run(
                [sys.executable, '-OO', os.path.join(VERIF, 'run.py'), self.pid,
                 '--tier', 'quick', '--seed', str(self.seed + 100)], env=env,
                capture_output=True, text=True, timeout=300)
            try:
                with open(os.path.join(out, 'sub.json')) as f:
                    r = json.load(f)
            except OSError:
                raise RuntimeError('the optimised run failed: ' +
                                   (p.stdout + p.stderr)[-500:])
            self.evaluations += r['evaluations']
            self.see('cases without assert statements', r['evaluations'])
            for k, m in r['known'].items():
                self.known_hits.setdefault(k, m)
            for v in r['violations']:
                self.violation('optimised:' + v['signature'], 'run with -OO: '
                               + v['message'], v['detail'])
        finally:
            shutil.rmtree(out, ignore_errors=True)

    # -- what the monitors saw
    def case(self, key=None, sample=None):
        """One execution judged by the oracle; key identifies distinct ones."""
        self.evaluations += 1
        if key is not None:
            self.distinct.add(hash(key))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(jsonable(sample))

    def see(self, what, n=1):
        self.observed[what] = self.observed.get(what, 0) + n

    def need(self, what, n):
        """The run is inconclusive unless `what` was observed n times."""
        self.minimum[what] = n

    # -- violations
    def violation(self, signature, message, detail=None):
        for k in self.known:
            if k['signature'] == signature:
                self.known_hits.setdefault(signature, message)
                return False
        self.nviol += 1
        if signature in self.sigs or len(self.viol) >= MAX_REPORTED:
            return True
        self.sigs.add(signature)
        self.viol.append({'signature': signature, 'message': message,
                          'detail': jsonable(detail)})
        return True

    def finish(self):
        self.lines.stop()
        if SUB:
            with open(os.path.join(os.environ['VERIF_SUB_OUT'], 'sub.json'),
                      'w') as f:
                json.dump({'evaluations': self.evaluations,
                           'known': self.known_hits,
                           'violations': self.viol}, f)
            return 1 if self.nviol else 0
        wall = round(time.time() - self.t0, 3)
        missing = {k: (self.observed.get(k, 0), v)
                   for k, v in self.minimum.items()
                   if self.observed.get(k, 0) < v}
        cov = {'evaluations': self.evaluations,
               'distinct_nontrivial': len(self.distinct),
               'rule': self.rule,
               'samples': self.samples or ['(none recorded)'],
               'observed': dict(sorted(self.observed.items())),
               'lines_of_repo_executed': self.lines.summary(),
               'known_findings_seen': sorted(self.known_hits)}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'exploration', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': wall,
              'violations': self.nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in self.known:
            if k['signature'] in self.known_hits:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        print(f'{self.pid} tier={self.tier} seed={self.seed} '
              f'evaluations={self.evaluations} distinct={len(self.distinct)} '
              f'violations={self.nviol} wall={wall}s')
        if self.nviol:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{self.pid}-{self.tier}-{self.seed}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'tier': self.tier,
                           'seed': self.seed,
                           'rerun': f'VERIF_SEED={self.seed} python run.py '
                                    f'{self.pid} --tier {self.tier}',
                           'violations': self.viol}, f, indent=1)
            for v in self.viol:
                print(f"  {v['signature']}: {v['message']}"[:600])
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        if missing:
            print(f'INCONCLUSIVE property={self.pid} observed too little: '
                  f'{missing}')
            return 2
        return 0


def load_known(pid):
    """Open (unrepaired) findings of one property; 'fixed:' lines suppress
    nothing."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('open: '):
                d = json.loads(line[6:])
                if d['property'] == pid:
                    out.append(d)
    return out


DATA_ERRORS_NOTE = ('struct.error, ValueError, OverflowError, EOFError, OSError'
                    ' count as clean rejections')


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    where = f' at {os.path.basename(last.filename)}:{last.lineno}' if last else ''
    return f'{type(e).__name__}: {e}{where}'


def attributes(o):
    """The attributes an object holds, in its dictionary or in slots."""
    out = {}
    for c in type(o).__mro__:
        names = c.__dict__.get('__slots__', ())
        for k in (names,) if isinstance(names, str) else names:
            if k not in ('__dict__', '__weakref__') and hasattr(o, k):
                out[k] = getattr(o, k)
    out.update(getattr(o, '__dict__', {}))
    return out
