"""Runs the cases of one property on all cores, collects what the monitors saw,
and turns it into a verdict, a replay file and an evidence file."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, random, re, shutil
import sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import build as B
import probe as PB

MAX_VIOL = 4


class Violation(Exception):
    def __init__(self, key, **detail):
        Exception.__init__(self, key)
        self.key, self.detail = key, detail


class Inconclusive(Exception):
    pass


class HarnessError(Exception):
    pass


class Ctx:
    """what a case may use; one per worker process"""

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.quick = tier == 'quick'
        self.probes = {}
        self.begin(None)
        self._mined = None

    def begin(self, case):
        self.case = case
        self.evals = 0
        self.keys = set()
        self.count = collections.Counter()
        self.samples = []
        self.viol = []
        self.skipped = 0
        self.script = None
        self.dir = None
        self.where = {}

    def rng(self, *extra):
        return random.Random('%s:%s:%s:%s' % (self.prop, self.seed, self.case, extra))

    @property
    def mined(self):
        import gen
        if self._mined is None:
            self._mined = gen.mine(B.REPO)
        return self._mined

    @property
    def new(self):
        import gen
        if not hasattr(self, '_new'):
            self._new = set(self.mined) - gen.COMMON
        return self._new

    @property
    def mined_strings(self):
        import gen
        if not hasattr(self, '_mstr'):
            self._mstr = gen.mine_strings(B.REPO)
        return self._mstr

    def probe(self, variant='asan', **kw):
        k = (variant, tuple(sorted((a, str(b)) for a, b in kw.items())))
        if k not in self.probes:
            kw.setdefault('cpu', 12)
            kw.setdefault('cwd', self.scratch)
            self.probes[k] = PB.Probe(B.build(variant), **kw)
        return self.probes[k]

    def run(self, script, **kw):
        """run a script, and judge everything that is never acceptable"""
        if isinstance(script, str):
            script = script.encode('latin1')
        self.script = script
        lines = self.probe(**dict(self.where, **kw)).run(script)
        self.count['executions'] += 1
        for l in lines:
            if l[:1] == 'X':
                raise Violation('monitor ' + ' '.join(l.split()[:2]), line=l)
            if l[:1] == '?':
                raise HarnessError(l)
        return lines

    def tmp(self):
        """a scratch directory for this case"""
        if self.dir is None:
            self.dir = tempfile.mkdtemp(dir=self.scratch)
        return self.dir

    def seen(self, *key):
        """note a distinct non-trivial observation"""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def fail(self, key, **detail):
        raise Violation(key, **detail)


_ctx = None
_chk = None


def _init(prop, tier, seed, scratch):
    global _ctx, _chk
    os.environ['PYTHONHASHSEED'] = '0'
    d = os.path.join(scratch, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    _ctx = Ctx(prop, tier, seed, d)
    _chk = importlib.import_module(prop.lower())


def crash_key(c):
    """a short stable name for a crash: the kind and the innermost frame of the
    code under test"""
    e = c.err
    kind = c.kind
    m = re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([a-zA-Z-]+)', e)
    if m:
        kind = m.group(1) + ' ' + m.group(2)
    else:
        m = re.search(r'runtime error: ([^\n]{0,80})', e)
        if m:
            kind = 'undefined behaviour: ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))
        else:
            m = re.search(r"Assertion `([^']{0,100})'|terminate called[^\n]*", e)
            if m:
                kind = 'abort: ' + m.group(0)
            elif c.kind == 'crash':
                kind = 'crash exit %s' % c.code
    return kind


def run_one(ctx, chk, case):
    ctx.begin(case)
    for attempt in (0, 1):
        try:
            chk.case(ctx, case)
            break
        except Violation as v:
            ctx.viol.append((v.key, v.detail, ctx.script))
            break
        except PB.Crash as c:
            for p in ctx.probes.values():
                p.close()
            if c.kind in ('hang', 'timeout') and attempt == 0:
                ctx.begin(case)
                continue
            if c.kind == 'timeout':
                ctx.count['inconclusive'] += 1
                break
            ctx.viol.append((crash_key(c), {'stderr': c.err[-6000:]}, ctx.script))
            break
        except (HarnessError, B.BuildError, MemoryError, OSError):
            raise
        except Exception:
            # the oracle did not understand what it saw.  Never happens on
            # observations of the right shape
            if attempt == 0:
                for p in ctx.probes.values():
                    p.close()
                ctx.begin(case)
                continue
            ctx.viol.append(('unexpected observation', {'trace': traceback.format_exc()}, ctx.script))
    if ctx.dir:
        shutil.rmtree(ctx.dir, ignore_errors=True)


def _work(cases):
    out = []
    for case in cases:
        try:
            run_one(_ctx, _chk, case)
        except Exception:
            return ('error', case, traceback.format_exc())
        out.append((case, _ctx.evals, _ctx.keys, _ctx.count, _ctx.samples, _ctx.viol, _ctx.skipped))
        if any(not is_known(case, v[0]) for v in _ctx.viol):
            break
    return ('ok', out)


def is_known(case, key):
    for f in known(_ctx.prop):
        if f['case'] == list(case) and re.search(f['key'], key):
            return f


def known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    with open(p) as f:
        return [k for k in json.load(f)['known'] if k['property'] == prop]


def main(prop, tier, seed, replay=None):
    t0 = time.time()
    chk = importlib.import_module(prop.lower())
    scratch = tempfile.mkdtemp(prefix='ccml-' + prop + '-')
    try:
        return _main(prop, tier, seed, replay, t0, chk, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, t0, chk, scratch):
    for v, t in getattr(chk, 'BUILDS', [('asan', 'probe')]):
        B.build(v, t)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        _init(prop, r.get('tier', tier), r['seed'], scratch)
        case = r['case']
        case = tuple(case) if isinstance(case, list) else case
        run_one(_ctx, _chk, case)
        for k, d, s in _ctx.viol:
            print('reproduced:', k)
            print(json.dumps(d, indent=1)[:6000])
        return 1 if _ctx.viol else 0
    ctx0 = Ctx(prop, tier, seed, scratch)
    cases = list(chk.cases(ctx0))
    evals = skipped = 0
    keys = set()
    count = collections.Counter()
    samples = []
    viol = []
    kinds = collections.Counter()
    chunk = getattr(chk, 'CHUNK', 8)
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    nproc = min(getattr(chk, 'NPROC', 8), max(1, len(chunks)))
    known_f = known(prop)
    hits = collections.Counter()
    pool = mp.get_context('fork').Pool(nproc, _init, (prop, tier, seed, scratch))
    try:
        for r in pool.imap_unordered(_work, chunks):
            if r[0] == 'error':
                print('check %s: error in case %r\n%s' % (prop, r[1], r[2]), file=sys.stderr)
                return 2
            for case, e, k, c, s, v, sk in r[1]:
                evals += e
                keys |= k
                count += c
                skipped += sk
                kinds[case[0] if isinstance(case, tuple) else str(case)] += 1
                if s and len(samples) < 400:
                    samples += [(case, x) for x in s]
                for key, det, script in v:
                    for f in known_f:
                        if f['case'] == list(case) and re.search(f['key'], key):
                            hits[f['what']] += 1
                            break
                    else:
                        viol.append((case, key, det, script))
            if len(viol) >= MAX_VIOL:
                break
    finally:
        pool.terminate()
        pool.join()
    for f in known_f:
        if hits[f['what']]:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    samples.sort(key=lambda x: repr(x[0]))
    pick = []
    seen_kind = set()
    for case, x in samples:
        k = case[0] if isinstance(case, tuple) else case
        if k not in seen_kind:
            seen_kind.add(k)
            pick.append({'case': list(case) if isinstance(case, tuple) else case, 'observed': x})
    min_seen = getattr(chk, 'MIN_SEEN', 10)
    cov = {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': chk.RULE, 'samples': pick[:12],
           'cases': sum(kinds.values()), 'cases_by_kind': dict(sorted(kinds.items())),
           'skipped_outside_bounds': skipped, 'observed': dict(sorted(count.items()))}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': chk.LEVEL, 'coverage': cov,
          'assumptions': getattr(chk, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for n, (case, key, det, script) in enumerate(viol):
            p = os.path.join(VERIF, 'replay', '%s-%d.json' % (prop, n))
            with open(p, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': list(case) if isinstance(case, tuple) else case,
                           'violation': key, 'detail': det,
                           'script': script.decode('latin1') if script else None,
                           'how': 'python3 run.py %s --replay %s' % (prop, p)}, f, indent=1)
            print('%s: %s: %s' % (prop, list(case), key))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if len(keys) < min_seen:
        print('check %s observed too little: %d' % (prop, len(keys)), file=sys.stderr)
        return 2
    print('%s: held on %d evaluations (%d distinct) in %.1f s' % (prop, evals, len(keys), time.time() - t0))
    return 0
