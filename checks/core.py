"""Running checks: obligations, evidence, replay files, known findings, exit codes."""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

PROVED, AGREE, UNDECIDED, VIOLATED = 'proved', 'agree', 'undecided', 'violated'


class Anchor(Exception):
    """something the property is about does not exist any more"""


class Report:
    """what one unit of analysis found; picklable"""

    def __init__(self, unit):
        self.unit = unit
        self.items = []         # (rule, what, where, status, detail, witness)
        self.info = {}
        self.wall = 0.0

    def add(self, rule, what, where, status, detail='', witness=None):
        self.items.append((rule, what, where, status, detail, witness))

    def ok(self, rule, what, where=''):
        self.add(rule, what, where, PROVED)

    def bad(self, rule, what, where, detail, witness=None):
        self.add(rule, what, where, VIOLATED, detail, witness)

    def open(self, rule, what, where, detail):
        self.add(rule, what, where, UNDECIDED, detail)

    def decide(self, rule, what, where, good, detail, witness=None):
        if good:
            self.ok(rule, what, where)
        else:
            self.bad(rule, what, where, detail, witness)

    def verdict(self, V, rule, what, where):
        """take over the result of equiv.compare"""
        for k in range(V.proved):
            self.ok(rule, what, where)
        for n in V.agree:
            self.add(rule, '%s: %s' % (what, n), where, AGREE)
        for n, d in V.undecided:
            self.open(rule, '%s: %s' % (what, n), where, d)
        for n, d, w in V.violations:
            self.bad(rule, '%s: %s' % (what, n), where, d, w)
        self.info['models'] = self.info.get('models', 0) + V.models
        s = self.info.get('sides', (0, 0))
        self.info['sides'] = (s[0] + V.sides[0], s[1] + V.sides[1])


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout


def _unit(args):
    fn, unit, params, limit, deadline = args
    sys.setrecursionlimit(100000)
    r = Report(unit)
    t = time.time()
    limit = min(limit, int(deadline - t))
    if limit < 2:
        r.open('time', unit, '', 'no time left')
        return r
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(r, *params)
    except Timeout:
        r.open('time', unit, '', 'analysis did not finish within %d s' % limit)
    except Anchor as e:
        r.add('anchor', unit, '', 'anchor', str(e))
    except RecursionError:
        r.open('analysis', unit, '', 'recursion limit')
    except Exception as e:
        from sa.terms import Undecidable
        tb = traceback.extract_tb(e.__traceback__)
        at = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-1:-4:-1])
        if isinstance(e, Undecidable):
            r.open('analysis', unit, loc_now(), 'outside of the analysed language: %s' % e)
        else:
            r.open('analysis', unit, loc_now(), 'internal: %s: %s (%s)' % (type(e).__name__, str(e)[:200], at))
    finally:
        signal.alarm(0)
    r.wall = time.time() - t
    return r


CURRENT = [None]


def loc_now():
    try:
        from sa import front
        return front.loc(CURRENT[0].node)
    except Exception:
        return ''


def run_units(units, limit=200, workers=8, total=780):
    """units: (fn, name, params); results in order"""
    deadline = time.time() + total
    jobs = [(f, n, p, limit, deadline) for f, n, p in units]
    if workers <= 1 or len(jobs) == 1 or os.environ.get('VERIF_SERIAL'):
        return [_unit(j) for j in jobs]
    out = []
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(min(workers, len(jobs)), mp_context=ctx) as ex:
        futs = [ex.submit(_unit, j) for j in jobs]
        for f, j in zip(futs, jobs):
            try:
                out.append(f.result())
            except Exception as e:       # a worker died
                r = Report(j[1])
                r.open('analysis', j[1], '', 'worker: %r' % e)
                out.append(r)
    return out


def known_findings(pid):
    """lines  known: property=<id> unit=<unit> what=<text>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):])
    return out


def finish(pid, tier, seed, technique, reports, t0, explanation, assumptions, extra=None):
    items = [(r, i) for r in reports for i in r.items]
    known = known_findings(pid)
    viol, kn = [], []
    for r, i in items:
        if i[3] == VIOLATED:
            key = '%s | %s' % (r.unit, i[1])
            hit = [k for k in known if k.split(' :: ')[0] == key]
            (kn if hit else viol).append((r, i))
    count = {}
    for r, i in items:
        count[i[3]] = count.get(i[3], 0) + 1
    rules = {}
    for r, i in items:
        d = rules.setdefault(i[0], {})
        d[i[3]] = d.get(i[3], 0) + 1
    dec = count.get(PROVED, 0) + count.get(AGREE, 0)
    cov = {
        'explanation': explanation,
        'technique': technique,
        'units': len(reports),
        'obligations': len(items),
        'discharged': dec,
        'discharged_by_identity': count.get(PROVED, 0),
        'discharged_by_interpretation': count.get(AGREE, 0),
        'undecided': count.get(UNDECIDED, 0),
        'random_interpretations': sum(r.info.get('models', 0) for r in reports),
        'decisions_seen_in_models': '%d of %d sides' % tuple(
            sum(r.info.get('sides', (0, 0))[k] for r in reports) for k in (0, 1)),
        'rules': rules,
        'analysed': sorted({x for r in reports for x in r.info.get('functions', ())}),
        'samples': [{'unit': r.unit, 'rule': i[0], 'what': i[1], 'where': i[2], 'status': i[3]}
                    for r, i in items if i[3] != UNDECIDED][:60],
        'open': [{'unit': r.unit, 'what': i[1], 'where': i[2], 'detail': i[4]} for r, i in items if i[3] == UNDECIDED][:60],
        'known_findings': ['%s | %s' % (r.unit, i[1]) for r, i in kn],
    }
    if any('states' in r.info for r in reports):
        cov['states'] = sum(r.info.get('states', 0) for r in reports)
        cov['transitions'] = sum(r.info.get('steps', 0) for r in reports)
        cov['fixpoints_reached'] = [r.unit for r in reports if r.info.get('complete')]
    if extra:
        cov.update(extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'assumptions': assumptions,
          'violations': len(viol)}
    if os.environ.get('VERIF_NOEVIDENCE'):
        global EV
        EV = '/tmp/verif-mutation'
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r, i in kn:
        print('KNOWN-FINDING: property=%s %s | %s: %s' % (pid, r.unit, i[1], i[4][:300]))
    for r, i in items:
        if i[3] == UNDECIDED:
            print('undecided: %s | %s %s: %s' % (r.unit, i[1], i[2], i[4][:200]))
    anchors = [(r, i) for r, i in items if i[3] == 'anchor']
    for r, i in anchors:
        print('analysis error: %s' % i[4])
    print('%s %s: %d units, %d obligations, %d discharged, %d undecided, %d violated, %.1f s' % (
        pid, tier, len(reports), len(items), dec, count.get(UNDECIDED, 0), len(viol), time.time() - t0))
    if viol:
        path = os.path.join(EV, 'replay-%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tree': '/repo', 'violations': [
                {'unit': r.unit, 'rule': i[0], 'what': i[1], 'where': i[2], 'detail': i[4], 'witness': i[5]}
                for r, i in viol]}, f, indent=1, default=str)
        for r, i in viol[:20]:
            print('  %s: [%s] %s: %s' % (i[2] or r.unit, i[0], i[1], i[4][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    # nothing of what the property is about could be found
    if anchors and not dec:
        return 2
    return 0
