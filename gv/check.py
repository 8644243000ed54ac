"""Decides one property: python3-vt -m gv.check <property> [--tier quick|thorough]. Exit 0 held, 1 violated."""
import os, sys, time, json, struct, subprocess, traceback, shutil, fnmatch
from . import driver, llvmc
from .driver import ROOT, REPO, BUILD
sys.path.insert(0, ROOT)
from contracts.registry import PROPS, TRUST_CORE
EVD = os.path.join(ROOT, 'evidence')

def bits(kind, v):
    "model value -> raw unsigned bits, as the native runner reads them"
    if kind == 'f64': return struct.unpack('<Q', struct.pack('<d', v))[0] if isinstance(v, float) else int(v)
    if kind == 'f32': return struct.unpack('<I', struct.pack('<f', v))[0] if isinstance(v, float) else int(v)
    if kind == 'b': return int(v) & 1
    w = int(kind[1:]); return int(v) & ((1 << (64 if kind == 'i64' else w)) - 1)
def write_inputs(path, contract, inputs, extra=()):
    with open(path, 'w') as f:
        f.write(f"# contract {contract}\n")
        for l in extra:
            for q in str(l).splitlines(): f.write("# " + q + "\n")
        for n, k, v in inputs or ():
            n = n.replace(' ', '_')
            if v is None or isinstance(v, str): f.write(f"# {n} {k} {v}\n"); continue
            try: f.write(f"INPUT {n} {k} {bits(k, v)}\n")
            except (OverflowError, ValueError, struct.error): f.write(f"# {n} {k} {v}\n")
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
def native(exe, args, timeout):
    try: r = subprocess.run([exe, *args], capture_output=True, text=True, timeout=timeout, env=ENV, errors='replace')
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
    return r.returncode, r.stdout + ('\n' + r.stderr[-3000:] if r.returncode not in (0, 11) else '')

def known():
    p = os.path.join(ROOT, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split('|')[0].split() if '=' in x); d['text'] = l.split('|', 1)[1].strip() if '|' in l else ''; out.append(d)
    return out

class Check:
    def __init__(s, prop, tier):
        s.prop = prop; s.tier = tier; s.P = PROPS[prop]; s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.dir = os.path.join(BUILD, prop + os.environ.get('GV_TAG', '') + ('-t' if tier == 'thorough' else '')); shutil.rmtree(s.dir, ignore_errors=True); os.makedirs(s.dir, exist_ok=True); os.makedirs(EVD, exist_ok=True)
        s.viol = []; s.kf = []; s.notes = []; s.res = []; s.nat = []; s.t0 = time.time(); s.known = [k for k in known() if k.get('property') == prop]
        s.exes = {}; s.names = {}; s.bounded = []; s.failed_ghost = False
    def say(s, *a): print(*a, flush=True)
    def violation(s, contract, label, replay, noinput):
        for k in s.known:
            if k.get('contract') in (None, contract) and k.get('label', '').replace('_', ' ') in label:
                s.kf.append(k.get('text') or label); return
        s.viol.append((contract, label, replay, noinput))
    def cfg(s, fname):
        c = dict(s.P.get('cfg', {}))
        for pat, d in s.P.get('per', {}).items():
            if fnmatch.fnmatch(fname, 'gvc_' + pat): c.update(d)
        if s.tier == 'thorough': c['obl_timeout'] = max(60000, c.get('obl_timeout', 20000)); c['budget'] = max(400, c.get('budget', 200))
        else: c.setdefault('budget', 200)
        return c
    def exe(s, tu):
        if tu not in s.exes:
            out = os.path.join(s.dir, os.path.basename(tu) + '.exe')
            try: s.exes[tu] = driver.compile_native(os.path.join(ROOT, 'contracts', tu), out, flags=s.P.get('native_flags', []), sched=tu in s.P.get('sched', ()))
            except driver.BuildError as e: s.exes[tu] = None; s.notes.append('native build failed: ' + str(e)[-600:])
            s.names[tu] = {l.split()[-1] for l in subprocess.run(['nm', '-D', '--defined-only', s.exes[tu]], capture_output=True, text=True).stdout.splitlines()} if s.exes[tu] else set()
        return s.exes[tu]
    def has(s, name, tu): return bool(s.P.get('native', True) and s.exe(tu) and name in s.names[tu])
    def run(s):
        jobs = []; tus = []
        import threading
        ths = []
        want_native = s.P.get('native', True)
        if want_native:
            for tu in s.P['tus']:
                t = threading.Thread(target=s.exe, args=(tu,)); t.start(); ths.append(t)
        broken = []
        for tu in s.P['tus']:
            out = os.path.join(s.dir, os.path.basename(tu) + '.bc')
            try: driver.compile_ir(os.path.join(ROOT, 'contracts', tu), out, flags=s.P.get('ir_flags', []) + s.P.get('tu_flags', {}).get(tu, []))
            except driver.BuildError as e: broken.append((tu, str(e))); continue
            m = llvmc.Module(out)
            for f in m.fns:
                if f.startswith('gvc_' + s.prop + '_') and not m.fns[f].decl:
                    jobs.append((out, f, s.cfg(f))); tus.append(tu)
            del m
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i][2].get('weight', 0)); inv = {}
        jobs2 = [jobs[i] for i in order]; tus2 = [tus[i] for i in order]
        for t in ths: t.join()
        s.say(f"property {s.prop}: {len(jobs)} contracts from {', '.join(s.P['tus'])} ({s.tier})")
        s.res = list(zip(driver.run_many(jobs2, 8), tus2))
        s.pick_variant()
        if 'keep' in s.P:
            for r, _ in s.res: s.P['keep'](r)
        for r, tu in s.res: s.judge(r, tu)
        for tu, err in broken: s.build_broken(tu, err)
        if not jobs and not broken and not s.P.get('native_ok'): s.notes.append('no contracts found'); s.violation('-', 'no contract was generated', s.replay_file('none', 'no contract', None, ''), True)
        if want_native: s.cross(); s.native_only({j[1] for j in jobs})
        for h in s.P.get('extra', ()): h(s)
        s.finish()
    def pick_variant(s):
        "contracts named ..__vN are one proof per choice N of an invariant: the property needs one choice under which all of them are proved"
        vs = {}
        for r, tu in s.res:
            if '__v' in r['contract']: vs.setdefault(r['contract'].rsplit('__v', 1)[1], []).append(r)
        if not vs: return
        best = min(sorted(vs), key=lambda v: sum(r['status'] != 'proved' for r in vs[v]))
        s.notes.append(f"invariant choice {best} of {len(vs)}")
        s.res = [(r, tu) for r, tu in s.res if '__v' not in r['contract'] or r['contract'].endswith('__v' + best)]
    def replay_file(s, contract, label, inputs, text):
        d = os.path.join(EVD, 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{s.prop}-{contract}.txt"); write_inputs(p, contract, inputs, [f"property {s.prop}", f"obligation {label}", f"replay with: python3-vt {ROOT}/tools/replay.py {p}", text]); return p
    def search(s, r, tu, secs, inputs=None):
        "directed search on the real code; True if a violation was found (and reported)"
        exe = s.exe(tu) if s.P.get('native', True) else None
        if not exe or r['contract'] not in s.names[tu]: return None
        args = [r['contract'], 'search', str(secs), str(s.seed)]
        if inputs:
            p = os.path.join(s.dir, r['contract'] + '.seed'); write_inputs(p, r['contract'], inputs); args.append(p)
        rc, out = native(exe, args, secs + 60)
        t = [l.split() for l in out.splitlines() if l.startswith('TRIALS')]
        tot, val = (int(t[-1][1]), int(t[-1][2])) if t else (0, 0)
        s.nat.append(dict(contract=r['contract'], trials=tot, valid=val, violated=rc == 10))
        if rc == 10:
            lab = [l[9:] for l in out.splitlines() if l.startswith('VIOLATED ')]; ins = [l for l in out.splitlines() if l.startswith('INPUT ')]
            inp = [(l.split()[1], 'i64' if l.split()[2][0] in 'iu' else l.split()[2], int(l.split()[3])) for l in ins]
            p = s.replay_file(r['contract'], lab[-1] if lab else '?', inp, out[-1500:])
            s.violation(r['contract'], lab[-1] if lab else '?', p, False); return True
        return False
    def judge(s, r, tu):
        name = r['contract']; st = r['status']
        bad = [o for o in r['obligations'] if o['status'] == 'failed']; unk = [o for o in r['obligations'] if o['status'] == 'unknown']
        s.say(f"  {name}: {st} {r.get('reason') or ''} [{sum(o['n'] for o in r['obligations'])} obligations, {r.get('wall', 0):.1f}s]")
        for o in bad + unk: s.say(f"    {o['status']}: {o['label']} ({o['kind']}) at {os.path.basename(o['loc'][0] or '?') if o['loc'] else '?'}:{o['loc'][1] if o['loc'] else 0}")
        r['bounded'] = False
        if st == 'proved': return
        if bad:
            for o in bad[:3]:
                text = f"obligation '{o['label']}' ({o['kind']}) of {name} fails at {o['loc']}; verifier: {o['backends']} {o['reason']}\ncounterexample {o['inputs']}\n{o.get('trace') or ''}"
                if s.has(name, tu):
                    p = os.path.join(s.dir, name + '.in'); write_inputs(p, name, o['inputs'])
                    rc, out = native(s.exe(tu), [name, 'replay', p], 60)
                    o['replayed'] = rc
                    if rc == 10:
                        s.violation(name, o['label'], s.replay_file(name, o['label'], o['inputs'], text + '\n' + out[-1500:]), False); return
            o = bad[0]
            if s.search(r, tu, s.P.get('search', 8), o['inputs']): return
            if s.cfg(name).get('ghost'): s.failed_ghost = True
            elif all(q.get('replayed') == 0 for q in bad[:3]):
                # the counterexample meets the precondition and the real code satisfies the postcondition on it: an artefact of an assumed contract
                r['bounded'] = True; s.notes.append(f"{name}: counterexample to '{o['label']}' does not reproduce on the real code (spurious); bounded search on the real code stands in")
                if not s.search(r, tu, s.P.get('bounded_secs', 12) * (4 if s.tier == 'thorough' else 1)): return
                return
            text = f"obligation '{o['label']}' ({o['kind']}) of {name} fails at {o['loc']}; verifier: {o['backends']} {o['reason']}\ncounterexample {o['inputs']}\n{o.get('trace') or ''}"
            for hk in s.P.get('confirm', ()):
                if hk(s, r, o): return
            s.violation(name, o['label'], s.replay_file(name, o['label'], o['inputs'], text), True); return
        # the verifier gives no verdict: a bounded check of the real code stands in
        r['bounded'] = True
        got = s.search(r, tu, s.P.get('bounded_secs', 12) * (4 if s.tier == 'thorough' else 1))
        if got is None and s.cfg(name).get('ghost') and any(f.startswith('gvc_' + s.prop + '_') for t in s.names for f in s.names[t]):
            s.notes.append(f"{name}: not proved ({st}: {str(r.get('reason'))[:300]}); the native contracts of the property stand in (bounded)"); s.failed_ghost = True; return
        if got is None:
            fb = s.P.get('fallback')
            if fb is not None: got = fb(s, r)
        s.notes.append(f"{name}: not proved ({st}: {str(r.get('reason'))[:300]}); " + ("bounded search on the real code stands in" if got is False else "violated" if got else "no stand-in"))
        if got is None: s.violation(name, f"obligations of {name} could not be generated", s.replay_file(name, 'undecided', None, str(r.get('reason'))), True)
    def build_broken(s, tu, err):
        s.notes.append(f"{tu}: the contracts do not compile against the current tree: {err[-800:]}")
        s.say("  contracts do not compile:", err[-1500:])
        if any(f.startswith('gvc_' + s.prop + '_') for t in s.names for f in s.names[t]):
            s.notes.append(f"{tu}: no verdict; the native contracts of the property stand in (bounded)"); s.failed_ghost = True; return
        s.violation(tu, 'contracts do not compile against the current sources', s.replay_file(os.path.basename(tu), 'build', None, err[-3000:]), True)
    def cross(s):
        "short (quick) or long (thorough) native run of every proved contract: guards the verifier's models against the real code"
        todo = [(r, tu) for r, tu in s.res if r['status'] == 'proved']
        tot = s.P.get('cross', 6) if s.tier == 'quick' else s.P.get('cross_thorough', 240)
        if not todo: return
        import concurrent.futures as cf
        per = max(0.3, min(tot * 8 / len(todo), tot))
        todo = [x for x in todo if s.has(x[0]['contract'], x[1])]
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda x: s.search(x[0], x[1], per), todo))
    def native_only(s, done):
        "contracts written for the native build only: bounded search on the real code, never counted as proved"
        import concurrent.futures as cf
        todo = []
        for tu, exe in s.exes.items():
            if not exe: continue
            todo += [(f, tu) for f in sorted(s.names[tu]) if f.startswith('gvc_' + s.prop + '_') and f not in done]
        if not todo and not done: s.violation('-', 'no contract was generated', s.replay_file('none', 'no contract', None, '; '.join(s.notes)), True)
        secs = s.P.get('native_secs', 5) * (12 if s.tier == 'thorough' else 4 if s.failed_ghost else 1)
        with cf.ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda x: s.search(dict(contract=x[0]), x[1], secs), todo))
        for (f, tu), g in zip(todo, got):
            s.say(f"  {f}: bounded search on the real code: {'violated' if g else 'held'}"); s.notes.append(f"{f}: bounded (native search only)"); s.bounded.append(f)
    def finish(s):
        ob = [o for r, _ in s.res for o in r['obligations']]
        n = sum(o['n'] for o in ob); d = sum(o['n'] for o in ob if o['status'] == 'discharged')
        be = {}
        for o in ob:
            for b in o['backends']: be[b] = be.get(b, 0) + o['n']
        fns = sorted({f for r, _ in s.res for f in r['fns']}); mods = sorted({f for r, _ in s.res for f in r['models']})
        dem = [llvmc.demangle(f) for f in fns]
        repo_fns = sorted({x.split('(')[0][:140] if False else x[:160] for x in dem if 'tc::sdk' in x and not x.startswith('std::')})
        level = s.P.get('level', 'proof')
        if not s.res and not s.viol: level = 'exploration'
        cov = dict(obligations=n, discharged=d, checker_cmd=f"python3-vt -m gv.check {s.prop} --tier {s.tier}",
                   trusted_base=TRUST_CORE + s.P.get('trusted', []),
                   contracts=[dict(name=r['contract'], status=r['status'], bounded=r.get('bounded', False), reason=r.get('reason'), obligations=sum(o['n'] for o in r['obligations']), solver_queries=r.get('nq'), solver_s=round(r.get('tq', 0), 2), ir_instructions=r.get('ninstr'), wall_s=round(r.get('wall', 0), 2)) for r, _ in s.res],
                   proved_contracts=sum(r['status'] == 'proved' for r, _ in s.res), bounded_contracts=[r['contract'] for r, _ in s.res if r.get('bounded')],
                   back_ends=be, solver_s=round(sum(r.get('tq', 0) for r, _ in s.res), 1), functions_under_contract=repo_fns, library_functions_executed=len(fns) - len(repo_fns),
                   assumed_models=[llvmc.demangle(x)[:160] for x in mods], obligation_labels=sorted({o['label'] for o in ob})[:400],
                   native_cross_check=dict(trials=sum(x['trials'] for x in s.nat), meeting_precondition=sum(x['valid'] for x in s.nat), contracts=len({x['contract'] for x in s.nat})), notes=s.notes)
        cov['bounded_contracts'] += s.bounded
        cov.update(evaluations=sum(x['trials'] for x in s.nat), distinct_nontrivial=sum(x['valid'] for x in s.nat), rule='one evaluation is one run of a contract on the real code with random inputs and a random schedule; counted when its precondition holds', samples=[x for x in s.nat][:4])
        if level not in ('proof', 'exploration'): cov['explanation'] = s.P.get('level_note', '')
        cov.update(getattr(s, 'cov_extra', {}))
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, coverage=cov, assumptions=s.P.get('assumptions', []), wall_s=round(time.time() - s.t0, 2), violations=len(s.viol))
        json.dump(ev, open(os.path.join(EVD, s.prop + '.json'), 'w'), indent=1)
        for k in sorted(set(s.kf)): s.say(f"KNOWN-FINDING: property={s.prop} {k}")
        for c, l, p, ni in s.viol: s.say(f"  violated: {c}: {l}")
        shutil.rmtree(s.dir, ignore_errors=True)
        if s.viol:
            s.viol.sort(key=lambda v: v[3])
            c, l, p, ni = s.viol[0]
            s.say(f"VIOLATION property={s.prop} replay={p}" + (" no-failing-input-found" if ni else "")); sys.exit(1)
        s.say(f"property {s.prop}: held ({d}/{n} obligations discharged, {sum(r['status'] == 'proved' for r, _ in s.res)}/{len(s.res)} contracts proved, {time.time() - s.t0:.1f}s)"); sys.exit(0)

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    c = Check(prop, tier)
    try: c.run()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); c.notes.append(traceback.format_exc()[-1500:])
        print("the check itself failed"); sys.exit(2)
if __name__ == '__main__': main()
