"""Check framework: obligations, violations, evidence, known findings."""
import json, os, resource, signal, sys, time
from engine import AnalysisError, St
from interp import Engine, Program
import extract

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 780     # seconds after which a check says that it cannot decide
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    """one check run: what was analysed, which obligations held, which did not"""

    def __init__(self, prop, prog, tier):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.obs = 0
        self.okd = 0
        self.viol = {}
        self.samples = []
        self.functions = set()
        self.paths = 0
        self.info = {}
        self.assume = []
        self.floors = []
        self.cache = {}

    def engine(self, **kw):
        e = Engine(self.prog, **kw)
        e.evsite = {}
        return e

    def ob(self, cond, key, msg='', where=''):
        """one obligation; key identifies the instance (no line numbers)"""
        self.obs += 1
        if cond:
            self.okd += 1
        else:
            self.bad(key, msg, where)
        return bool(cond)

    def good(self, n=1):
        self.obs += n
        self.okd += n

    def bad(self, key, msg, where=''):
        if key not in self.viol:
            self.viol[key] = (msg, where)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n, least):
        self.floors.append((name, n, least))
        self.info[name] = n
        if n < least:
            self.bad('floor:' + name, 'only %d %s found, at least %d expected: the rule would pass vacuously' % (n, name, least))

    def fn(self, path):
        """the body of a function this rule is anchored to"""
        try:
            fid = self.prog.find(path)
        except Exception as e:
            raise AnalysisError('anchor %s not found (%s)' % (path, e))
        self.functions.add(path)
        return fid

    def saw(self, eng, outs=0):
        for f in eng.fns_seen:
            g = self.prog.fns[f]
            if g.get('local', True):
                self.functions.add(self.prog.np(g['path']))
        self.paths += outs

    def loc(self, path):
        try:
            f = self.prog.fns[path if isinstance(path, int) else self.prog.find(path)]
            return '%s (%s)' % (f['span'], self.prog.np(f['path']))
        except Exception:
            return path


def known_for(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def run_check(prop, fn, meta, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    facts = extract.extract()
    prog = Program(facts)
    ctx = Ctx(prop, prog, tier)

    def late(*_):
        raise AnalysisError('it takes longer than the %d s a check may take' % LIMIT)
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT, 5)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
    try:
        fn(ctx)
    except AnalysisError as e:
        ctx.bad('analysis', 'the analysis cannot decide the property here: %s' % e)
    except Exception as e:   # fail closed: no answer is not a pass
        if os.environ.get('VERIF_DEBUG'):
            raise
        ctx.bad('analysis', 'the analysis cannot decide the property here: %s %s' % (type(e).__name__, str(e)[:300]))
    signal.setitimer(signal.ITIMER_REAL, 0)
    known = known_for(prop)
    viol = {k: v for k, v in ctx.viol.items() if k not in known}
    found = {k: v for k, v in ctx.viol.items() if k in known}
    cov = {
        'explanation': meta['explanation'],
        'rule': meta['rule'],
        'obligations': ctx.obs,
        'discharged': ctx.okd,
        'known_findings': len(found),
        'functions_analysed': sorted(ctx.functions)[:200],
        'function_count': len(ctx.functions),
        'paths': ctx.paths,
        'floors': [{'what': n, 'found': f, 'at_least': l} for n, f, l in ctx.floors],
        'samples': ctx.samples,
    }
    cov.update(ctx.info)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': meta.get('assumptions', []) + ctx.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1, default=str)
    os.replace(p + '.tmp', p)
    for k in sorted(found):
        print('KNOWN-FINDING: property=%s %s :: %s' % (prop, k, known[k]))
    if not viol:
        print('%s: held; %d obligations discharged over %d functions (%.1fs)' % (prop, ctx.okd, len(ctx.functions), ev['wall_s']))
        return 0
    rd = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, prop + '.txt')
    with open(rp, 'w') as f:
        for k, (m, w) in sorted(viol.items()):
            f.write('%s\n  rule: %s\n  %s\n  at: %s\n' % (k, meta['rule'], m, w))
    for k, (m, w) in sorted(viol.items())[:20]:
        print('  %s: %s%s' % (k, m, ' at %s' % (w,) if w else ''))
    if len(viol) > 20:
        print('  ... %d more in %s' % (len(viol) - 20, rp))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1
