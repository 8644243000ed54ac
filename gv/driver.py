"""Runs the contracts of a translation unit: compile /repo sources to IR, generate and discharge obligations."""
import os, sys, subprocess, time, json, hashlib, multiprocessing as mp, traceback, resource, signal
from . import llvmc, engine
from .engine import Engine, State, Unsupported, LoopBound, Budget
from .models import core
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GV_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CLANG = 'clang++-18' if subprocess.run(['which', 'clang++-18'], capture_output=True).returncode == 0 else 'clang++'
CXXF = ['-std=c++20', '-I' + os.path.join(ROOT, 'gv/include'), '-I' + os.path.join(ROOT, 'contracts')]
def incs(repo): return ['-I' + repo + '/sdk/include', '-I' + repo + '/sdk/src', '-I' + repo + '/sdk']

class BuildError(Exception): pass

def compile_ir(tu, out, repo=None, flags=()):
    repo = repo or REPO
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [CLANG, *[f for f in flags if f.startswith('-I')], *CXXF, '-DGV_REPO_DIR=' + repo, *incs(repo), '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only', '-ffp-contract=off', '-w', '-fno-access-control',
           *flags, '-c', '-emit-llvm', tu, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:1800])
    return out

def compile_native(tu, out, repo=None, flags=(), san=True, sched=False):
    "sched: with the deterministic scheduler (interposed threads and clocks), which excludes the sanitizers"
    san = san and not sched
    repo = repo or REPO
    os.makedirs(os.path.dirname(out), exist_ok=True)
    s = ['-fsanitize=undefined,address', '-fno-sanitize-recover=all'] if san else []
    cmd = ['g++', *CXXF, '-DGV_NATIVE', '-DGV_REPO_DIR=' + repo, *incs(repo), '-O1', '-g', '-w', *s, *flags, tu, os.path.join(ROOT, 'gv/include/gv/native.cpp'), *([os.path.join(ROOT, 'gv/include/gv/sched.cpp')] if sched else []), '-o', out, '-lpthread', '-ldl', '-rdynamic', '-fno-access-control']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:1800])
    return out

def run_contract(bc, fname, cfg):
    "returns a result dict (picklable)"
    t0 = time.time()
    res = dict(contract=fname, status='error', obligations=[], fns=[], models=[], covers={}, reason=None)
    E = None
    try:
        m = bc if isinstance(bc, llvmc.Module) else llvmc.Module(bc)
        models = dict(core.MODELS); rxs = list(core.REGEX)
        E = Engine(m, arith=cfg.get('arith', 'bv'), fp=cfg.get('fp', 'fp'), models=models, budget_s=cfg.get('budget', 240), loop_limit=cfg.get('loop_limit', 70), overflow=cfg.get('overflow', True), contract=fname)
        E.regex_models = rxs
        E.cfg = cfg; E.covering = bool(cfg.get('cover'))
        E.obl_timeout = int(cfg.get('obl_timeout', 20000)); E.solver.set('timeout', int(cfg.get('feas', 4000)))
        for name in cfg.get('models', ()):
            mod = __import__('gv.models.' + name, fromlist=['x']); mod.install(E, cfg)
        st = State()
        if cfg.get('setup'): cfg['setup'](E, st)
        fn = m.fns[fname]
        for g in m.globals.values():
            if not g.decl and not g.const: E.gobj(st, g.name)
        outs = E.run_fn(st, fn, [])
        for (s2, kind, v) in outs:
            if s2.dead: continue
            if kind == 'throw':
                E.fail(s2, f"no exception escapes the contract ({demti(v[1])})", "safety")
            else:
                for h in E.hooks.get('end', ()): h(E, s2)
        live = [o for o in outs if not o[0].dead and o[1] == 'ret']
        if not any(E.check(o[0]) != engine.z3.unsat for o in live) and not any(o.status != 'discharged' for o in E.obls):
            res['vacuous'] = True
        bad = [o for o in E.obls if o.status != 'discharged']
        if bad: res['status'] = 'failed' if any(o.status == 'failed' for o in bad) else 'unknown'
        elif res.get('vacuous') or not any(o.kind == 'ensures' for o in E.obls): res['status'] = 'vacuous'; res['reason'] = 'no feasible path reaches an obligation'
        elif any(v == 0 for v in E.covers.values()): res['status'] = 'vacuous'; res['reason'] = 'cover not reached: ' + ', '.join(k for k, v in E.covers.items() if not v)
        else: res['status'] = 'proved'
    except Unsupported as e:
        res['status'] = 'unsupported'; res['reason'] = f"{e} at {loc(E)} in {' < '.join(E.demname(x)[:80] for x in reversed(E.fnstack[-6:]))}" if E else str(e)
    except (LoopBound, Budget) as e:
        res['status'] = 'limit'; res['reason'] = f"{e} at {loc(E)}"
    except RecursionError as e:
        res['status'] = 'unsupported'; res['reason'] = 'python recursion'
    except Exception as e:
        res['status'] = 'unsupported'; res['reason'] = 'internal: ' + traceback.format_exc()[-1800:] + f" at {loc(E)}"
    if E is not None:
        agg = {}
        for o in E.obls:
            k = (o.label, o.kind, o.status)
            d = agg.get(k)
            if d is None: d = agg[k] = dict(label=o.label, kind=o.kind, status=o.status, n=0, ms=0, backends=[], loc=None, inputs=None, reason=None, trace=None)
            d['n'] += 1; d['ms'] += o.ms
            if o.backend not in d['backends']: d['backends'].append(o.backend)
            if o.status != 'discharged':
                if d['inputs'] is None: d['loc'] = o.loc; d['inputs'] = o.inputs; d['reason'] = o.reason; d['trace'] = getattr(o, 'trace', None)
        res['obligations'] = list(agg.values())
        if res['status'] in ('unsupported', 'limit') and any(o.status == 'failed' for o in E.obls): res['also_failed'] = True
        res['fns'] = sorted(E.fns_used); res['models'] = sorted(E.models_used); res['covers'] = E.covers
        res['accesses'] = [(*k, *v) for k, v in E.acc.items()]; res['edges'] = sorted(E.edges)
        res['nq'] = E.nq; res['tq'] = E.tq; res['ninstr'] = E.ninstr; res['notes'] = sorted(E.bounded_notes)
    res['wall'] = time.time() - t0
    return res
def demti(t):
    if t is None: return 'unknown type'
    return engine.demangle('_ZTI' + t[4:]).replace('typeinfo for ', '') if t.startswith('_ZTI') else t
def loc(E):
    if E is None: return '?'
    f, l = E.curloc; return f"{os.path.basename(f or '?')}:{l}"

def _child(bc, fname, cfg, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try: r = run_contract(bc, fname, cfg)
    except BaseException as e: r = dict(contract=fname, status='unsupported', reason='child: ' + repr(e)[:300], obligations=[], fns=[], models=[], covers={}, wall=0)
    import pickle
    q.send_bytes(pickle.dumps(r)); q.close()

def run_many(jobs, nproc=8, timeout=None):
    "jobs: list of (bc, fname, cfg) ; returns results in order"
    import pickle
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork'); pend = list(enumerate(jobs)); run = {}; out = [None] * len(jobs)
    while pend or run:
        while pend and len(run) < nproc:
            i, (bc, fn, cfg) = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(bc, fn, cfg, b)); p.start(); b.close()
            run[a] = (i, p, time.time(), cfg.get('budget', 240) + 60, fn)
        for c in wait(list(run), timeout=1):
            i, p, t, lim, fn = run.pop(c)
            try: out[i] = pickle.loads(c.recv_bytes())
            except (EOFError, OSError): out[i] = dict(contract=fn, status='limit', reason='verifier process died (memory?)', obligations=[], fns=[], models=[], covers={}, wall=time.time() - t)
            p.join()
        for c in list(run):
            i, p, t, lim, fn = run[c]
            if time.time() - t > lim:
                p.kill(); p.join(); run.pop(c)
                out[i] = dict(contract=fn, status='limit', reason='verifier process timed out', obligations=[], fns=[], models=[], covers={}, wall=time.time() - t)
    return out
