"""Shared infrastructure of the checks: results, known findings, evidence."""
import os, sys, json, time, random, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import dom, ll, interp, build, witness
from dom import *
from interp import Run, State, Obj, Undecided

REPO = build.REPO
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

class Broken(Exception):
    """the analysis lost its subject (exit 2)"""

class Fail:
    """an obligation that is refuted whenever the facts hold"""
    def __init__(self, facts, msg): self.facts = facts; self.msg = msg
class Eq:
    def __init__(self, facts, a, b, w, msg): self.facts = facts; self.a = a; self.b = b; self.w = w; self.msg = msg
    def same(self, x, y): return x == y
class Ok:
    def __init__(self, n=1, msg=''): self.n = n; self.msg = msg

class Check:
    def __init__(self, pid, rule, level='other'):
        self.pid = pid; self.rule = rule; self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.instances = 0; self.obl = 0; self.proved = 0
        self.unproven = []; self.undecided = []
        self.viol = []        # (key, message, detail)
        self.samples = []
        self.functions = set()
        self.assumptions = []
        self.notes = {}
        self.minimum = 1
        self.maxviol = 40

    def ok(self, n=1):
        self.obl += n; self.proved += n
    def violation(self, key, msg, detail=None):
        if all(k != key for k, _, _ in self.viol): self.viol.append((key, msg, detail))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def undecide(self, key, why):
        self.undecided.append('%s: %s' % (key, why))
    def seen(self, I):
        self.functions |= I.visited_fns

    # ------------------------------------------------------------------
    def decide(self, key, inputs, analyse, hints=None, show=None):
        """inputs: {name: width}.  analyse(vals) -> list of obligations
        (Ok/Eq/Fail), with vals either symbols or (for confirming an alarm)
        integers."""
        self.instances += 1
        try:
            t0 = time.time(); obs = analyse({n: sym(n, w) for n, w in inputs.items()})
            if os.environ.get('VERIF_TIME'): print('TIME %.1f %s' % (time.time() - t0, key), flush=True)
        except Undecided as e:
            self.undecide(key, str(e)); return 'undecided'
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc(limit=-12)
            self.undecide(key, '%s: %s' % (type(e).__name__, e)); return 'undecided'
        bad = False
        for o in obs:
            if o.__class__ is Ok:
                self.ok(o.n); continue
            self.obl += 1
            if isinstance(o, Eq) and witness.equal(o.facts, o.a, o.b, o.w):
                self.proved += 1; continue
            r = self._refute(key, inputs, analyse, o, hints, show)
            if r: bad = True
            else:
                self.unproven.append('%s: %s' % (key, o.msg))
                if os.environ.get('VERIF_SHOW') and isinstance(o, Eq): print('UNPROVEN', key, o.msg[:150], '\n   got ', repr(o.facts.resolve(o.a, o.w))[:400], '\n   want', repr(o.facts.resolve(o.b, o.w))[:400])
        return 'violated' if bad else 'ok'

    def _refute(self, key, inputs, analyse, o, hints, show):
        n = 0
        tries = 400 if self.tier == 'quick' else 3000
        extra = [sym(nm, w) for nm, w in inputs.items()]
        for ev in witness.points(o.facts, extra + ([o.a, o.b] if isinstance(o, Eq) else []), tries=tries, seed=self.seed, hints=hints):
            if isinstance(o, Eq):
                if o.a.__class__ in (int, BV) and o.b.__class__ in (int, BV):
                    if o.same(ev.val(o.a), ev.val(o.b)): continue
                elif ev.any(o.a) == ev.any(o.b): continue
            n += 1
            if n > 6: break
            pt = {nm: ev.atom(dom.atom('sym', (nm,), w)) for nm, w in inputs.items()}
            try:
                obs2 = analyse(dict(pt))
            except Exception:
                continue
            for p in obs2:
                if p.__class__ is Ok: continue
                if p.__class__ is Fail or (isinstance(p, Eq) and refuted_at_point(p)):
                    self.violation(key, '%s [operands %s]' % (p.msg, show(pt) if show else fmt_pt(pt, inputs)), {'point': pt})
                    return True
        return False

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        rep = [];
        knownhit = []
        for key, msg, det in self.viol:
            if key in known: knownhit.append((key, msg))
            else: rep.append((key, msg, det))
        for key, msg in knownhit:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, key, msg))
        status = 0
        os.makedirs(EVID, exist_ok=True)
        if self.instances < self.minimum:
            print('analysis lost its subject: %d instances, expected at least %d' % (self.instances, self.minimum))
            status = 2
        if self.instances and len(self.undecided) > 0.5 * self.instances and not rep:
            print('analysis undecided on %d of %d instances' % (len(self.undecided), self.instances))
            for u in self.undecided[:20]: print('  ', u)
            status = 2
        replay = os.path.join(EVID, '%s.violation.txt' % self.pid)
        if rep:
            status = 1
            with open(replay, 'w') as fp:
                for key, msg, det in rep:
                    fp.write('%s\n    %s\n' % (key, msg))
            for key, msg, det in rep[:self.maxviol]:
                print('violated: %s: %s' % (key, msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        elif os.path.exists(replay):
            os.remove(replay)
        cov = {
            'explanation': self.rule,
            'rule': self.rule,
            'evaluations': self.obl,
            'distinct_nontrivial': self.instances,
            'instances': self.instances,
            'obligations': self.obl,
            'discharged': self.proved,
            'unproven_no_counterexample': len(self.unproven),
            'undecided_instances': len(self.undecided),
            'functions_analysed': sorted('%s:%s' % f for f in self.functions)[:400],
            'samples': [str(s) for s in self.samples] or ['(none)'],
            'unproven_list': self.unproven[:60],
            'undecided_list': self.undecided[:60],
            'known_findings_seen': ['%s' % k for k, _ in knownhit],
        }
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assumptions,
              'violations': [{'what': k + ': ' + m} for k, m, _ in rep]}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fp: json.dump(ev, fp, indent=1)
        print('%s: %d instances, %d obligations, %d discharged, %d unproven, %d undecided, %d violations, %.1fs'
              % (self.pid, self.instances, self.obl, self.proved, len(self.unproven), len(self.undecided), len(rep), time.time() - self.t0))
        return status

    # ------------------------------------------------------------------
    def parallel(self, jobs, n=None):
        """run the jobs (callables recording into this object) in n processes and merge what they record"""
        import pickle
        n = n or min(8, os.cpu_count() or 1)
        if len(jobs) < 2 * n or n == 1:
            for j in jobs: j()
            return
        # neighbouring jobs cost about the same: deal them out
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    self.instances = self.obl = self.proved = 0
                    self.unproven = []; self.undecided = []; self.viol = []; self.samples = []
                    for i in range(k, len(jobs), n): jobs[i]()
                    d = pickle.dumps((self.instances, self.obl, self.proved, self.unproven, self.undecided,
                                      [(a, b, None) for a, b, _ in self.viol], [str(x) for x in self.samples], self.functions))
                    with os.fdopen(w, 'wb') as fp: fp.write(d)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(rc)
            os.close(w); kids.append((pid, r))
        viol = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as fp: d = fp.read()
            _, status = os.waitpid(pid, 0)
            if status != 0 or not d: raise Broken('a worker process failed')
            x = pickle.loads(d)
            self.instances += x[0]; self.obl += x[1]; self.proved += x[2]
            self.unproven += x[3]; self.undecided += x[4]; viol += x[5]
            for q in x[6]: self.sample(q)
            self.functions |= x[7]
        for a, b, c in sorted(viol): self.violation(a, b, c)

def refuted_at_point(p):
    if p.a.__class__ is int and p.b.__class__ is int:
        return not p.same(p.a, p.b)
    if witness.equal(p.facts, p.a, p.b, p.w): return False
    # opaque residue (register/memory contents): evaluate at several points
    k = 0
    for ev in witness.points(p.facts, [p.a, p.b], tries=12):
        if not p.same(ev.any(p.a), ev.any(p.b)): return True
    return False

def fmt_pt(pt, inputs):
    return ', '.join('%s=%s' % (k, signed(v, inputs[k]) if inputs[k] > 8 else v) for k, v in sorted(pt.items()))

def load_known(pid):
    out = set()
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.add(line.split(' ', 2)[2].split(' | ')[0].strip())
    except FileNotFoundError:
        pass
    return out

def main(fn):
    try:
        rc = fn()
    except Broken as e:
        print('analysis broken: %s' % e); rc = 2
    except build.BuildError as e:
        print('does not compile: %s' % e); rc = 2
    sys.stdout.flush()
    os._exit(rc if rc is not None else 0)

# ---------------------------------------------------------------- helpers
def splitc(facts, v, w, limit=64):
    """partition facts so that v is constant: [(facts, int)]"""
    v = facts.resolve(v, w) if v.__class__ is BV else v
    if v.__class__ is BV: v = mk(tuple(facts.rbit(b) for b in v.bits))
    if v.__class__ is int: return [(facts, v)]
    for b in v.bits:
        b = facts.rbit(b)
        if b.__class__ is int: continue
        out = []
        for x in (0, 1):
            f = facts.copy()
            if f.assume(b, x):
                out += splitc(f, v, w, limit)
                if len(out) > limit: raise Undecided('too many values for %r' % (v,))
        return out
    return [(facts, v)]

def spliteq(facts, a, b, w):
    """partition on a == b: [(facts, bool)]"""
    bit = icmp('eq', facts.resolve(a, w), facts.resolve(b, w), w)
    bit = facts.rbit(bit) if bit.__class__ is Bit else bit
    if bit.__class__ is int: return [(facts, bool(bit))]
    out = []
    for x in (1, 0):
        f = facts.copy()
        if f.assume(bit, x): out.append((f, bool(x)))
    return out

def splitbit(facts, bit):
    bit = facts.rbit(bit) if bit.__class__ is Bit else bit
    if bit.__class__ is int: return [(facts, bool(bit))]
    out = []
    for x in (1, 0):
        f = facts.copy()
        if f.assume(bit, x): out.append((f, bool(x)))
    return out

def cmpbit(facts, pred, a, b, w):
    return icmp(pred, facts.resolve(a, w), facts.resolve(b, w), w)
