#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Deductive part: harness + /repo/src/scn/impl.cpp -> LLVM IR (mechanical, this run) -> obligations -> SMT.
Bounded part:   native program built from the same sources, run under ASan/UBSan against an independent oracle.
Exit 0: nothing violated.  Exit 1: VIOLATION line."""
import argparse
import hashlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'irvc'), os.path.join(HERE, 'contracts')]
import build            # noqa: E402
import props            # noqa: E402

EVID = os.path.join(HERE, 'evidence')
HINTS = os.path.join(HERE, 'contracts', 'hints.json')
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
NATIVE_FLAGS = ['-std=c++17', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                '-fno-sanitize=vptr,function']


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=' + pid + ' '):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def conf_single(conf):
    """the native program includes the library's implementation file itself (it reaches internal functions)"""
    return conf.get('single_tu', False)


class Native:
    """compile and run the bounded native program"""

    def __init__(self, conf, tier, seed, work):
        self.conf = conf
        self.tier = tier
        self.seed = seed
        self.work = work
        self.fails = []
        self.stats = {}
        self.samples = []
        self.error = None
        self.compile_error = None
        self.out = ''
        self.exe = os.path.join(work, 'native')

    def build(self):
        src = os.path.join(HERE, 'native', self.conf['native'])
        extra = self.conf.get('native_flags', [])
        obj = [os.path.join(self.work, x) for x in ('lib.o', 'prog.o')]
        files = [f'{build.REPO}/src/scn/impl.cpp', src]
        outs = [None, None]

        def one(i):
            # the library itself without optimisation: compiling it takes most of the time of a quick run
            fast = ['-O0'] if len(obj) > 1 and i == 0 and self.tier == 'quick' else []
            outs[i] = build.run([build.CXX, *build.FLAGS, *NATIVE_FLAGS, *fast, *extra, f'-I{HERE}/native', '-c', '-o', obj[i], files[i]], 800)
        if conf_single(self.conf):
            obj, files, outs = obj[1:], files[1:], [None]
        ths = [threading.Thread(target=one, args=(i,)) for i in range(len(files))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        rc, out = max(o[0] for o in outs), ''.join(o[1] for o in outs if o[0])
        if not rc:
            rc, out = build.run([build.CXX, *NATIVE_FLAGS, '-o', self.exe, *obj], 300)
        if rc:
            self.compile_error = out[-3000:]
            return False
        return True

    def execute(self, args, timeout):
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        d = tempfile.mkdtemp(dir=self.work)
        try:
            p = subprocess.run([self.exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=d)
            return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1')
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def parse(self, rc, out, err):
        fails = []
        for l in out.splitlines():
            if l.startswith('FAIL '):
                key, _, text = l[5:].partition(' :: ')
                fails.append((key, text))
            elif l.startswith('STAT '):
                k, v = l[5:].split('=')
                self.stats[k] = self.stats.get(k, 0) + int(v)
            elif l.startswith('SAMPLE '):
                self.samples.append(l[7:])
        if rc == 'timeout':
            # not decided in time: never an alarm
            self.stats['timeouts'] = self.stats.get('timeouts', 0) + 1
        elif rc != 0 and not any(k == 'crash' for k, _ in fails) and not fails:
            fails.append(('crash', 'native program ended with status %s: %s' % (rc, err[-1500:].replace('\n', ' | '))))
        for i, (k, t) in enumerate(fails):
            if k.startswith('crash'):
                fails[i] = (k, t + ' || ' + err[-800:].replace('\n', ' | '))
        return fails

    def run(self):
        t = time.time()
        try:
            if not self.build():
                return
            self.build_s = time.time() - t
            shards = self.conf.get('shards', 4)
            ths = []
            res = [None] * shards
            limit = self.conf.get('native_s', {'quick': 240, 'thorough': 1500})[self.tier]

            def one(i):
                res[i] = self.execute(['run', self.tier, str(self.seed), str(i), str(shards)], limit)
            for i in range(shards):
                th = threading.Thread(target=one, args=(i,))
                th.start()
                ths.append(th)
            for th in ths:
                th.join()
            for r in res:
                self.fails += self.parse(*r)
        except Exception:
            self.error = traceback.format_exc()
        self.wall = time.time() - t

    KEEP = ('fails', 'stats', 'samples', 'error', 'compile_error')

    def start(self):
        # a process of its own: the contract processes are forked from a single-threaded parent
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.run()
                with open(self.exe + '.pkl', 'wb') as f:
                    pickle.dump({k: getattr(self, k) for k in self.KEEP}, f)
            finally:
                os._exit(0)

    def join(self):
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        try:
            for k, v in pickle.load(open(self.exe + '.pkl', 'rb')).items():
                setattr(self, k, v)
        except Exception:
            self.error = 'the native process ended without a result'


def fn_hash(module, fn):
    f = module.functions.get('@' + fn)
    if f is None:
        return None
    h = hashlib.sha256()
    for l in f.lines:
        h.update(l.encode())
    return h.hexdigest()[:16]


def deductive(conf, tier, work, log, only=None):
    """run every contract of the property; returns list of result dicts"""
    import importlib
    import ir
    import vc
    hints = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
    results = []
    jobs = []
    info = {'emit_s': 0.0, 'sources': []}
    mods = {}
    emitted = {}

    def emit(unit):
        t = time.time()
        try:
            emitted[unit['harness']] = build.emit(os.path.join(HERE, 'harness', unit['harness']), work, unit.get('defines', []))
        except Exception as e:
            emitted[unit['harness']] = e
        info['emit_s'] += time.time() - t
    ths = [threading.Thread(target=emit, args=(u,)) for u in conf['units']]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    for unit in conf['units']:
        try:
            ll = emitted[unit['harness']]
            if isinstance(ll, Exception):
                raise ll
            mods[unit['harness']] = ir.Module(open(ll).read())
        except build.BuildError as e:
            results.append({'spec': unit['harness'], 'func': unit['harness'], 'error': 'harness does not compile against the current sources: ' + str(e)[-600:]})
            continue
        except Exception as e:
            results.append({'spec': unit['harness'], 'func': unit['harness'], 'error': 'not extracted: ' + str(e)[-600:]})
            continue
        M = importlib.import_module(unit['module'])
        for nm in unit['specs'](M, tier) if callable(unit['specs']) else unit['specs']:
            if only and nm not in only:
                continue
            jobs.append((unit, M, nm))
    budget = conf.get('budget_s', {'quick': 420, 'thorough': 3000})[tier]
    deadline = time.time() + budget

    def one(unit, M, nm):
        mod = mods[unit['harness']]
        made = getattr(M, nm, None)
        spec = made() if made is not None else M.make(nm)
        d = {'spec': nm, 'fn': spec.fn, 'func': getattr(spec, 'func', spec.fn)}
        try:
            hsh = fn_hash(mod, spec.fn)
            hint = hints.get(nm, {}).get(hsh) if hsh else None
            left = max(20, deadline - time.time())
            tmo = unit.get('timeout_ms', 60000)
            r = None
            if hint is not None:
                r = vc.verify(mod, spec, timeout_ms=tmo, budget_s=left, hint=hint)
                if any(v[2] != 'ok' for v in r.verdicts):
                    r = None
            if r is None:
                left = max(20, deadline - time.time())
                made = getattr(M, nm, None)
                spec = made() if made is not None else M.make(nm)
                r = vc.verify(mod, spec, timeout_ms=tmo, budget_s=left)
            d.update(hash=hsh, hint=r.hint, verdicts=r.verdicts, covers=r.covers, houdini=r.houdini, loops=r.loops, trivial=r.trivial,
                     inv_obligations=r.inv_obligations, solver_s=r.solver_s, wall_s=r.wall_s, instrs=r.instrs, trusted=r.trusted,
                     kept=r.kept, functions=r.functions, queries=r.queries)
        except vc.VCError as e:
            d['error'] = 'outside the generator: ' + str(e)[:500]
        except RecursionError:
            d['error'] = 'recursion limit'
        except Exception as e:
            d['error'] = 'generator failed: ' + ''.join(traceback.format_exception_only(type(e), e))[:500] + traceback.format_exc()[-700:]
        return d
    # one process per contract; the solver slots inside are shared
    running = {}
    todo = list(jobs)
    maxp = max(2, min(10, (os.cpu_count() or 4) + 2))
    while todo or running:
        while todo and len(running) < maxp:
            j = todo.pop(0)
            path = os.path.join(work, f'res{len(todo)}_{j[2]}.pkl')
            pid = os.fork()
            if pid == 0:
                try:
                    sys.setrecursionlimit(20000)
                    d = one(*j)
                    with open(path + '.tmp', 'wb') as f:
                        pickle.dump(d, f)
                    os.rename(path + '.tmp', path)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (j, path)
        pid = 0
        try:
            for q in running:
                pid, st = os.waitpid(q, os.WNOHANG)
                if pid:
                    break
        except ChildProcessError:
            break
        if pid == 0:
            if time.time() > deadline + 120:
                for p in list(running):
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.05)
            continue
        if pid not in running:
            continue
        j, path = running.pop(pid)
        if os.path.exists(path):
            d = pickle.load(open(path, 'rb'))
        else:
            d = {'spec': j[2], 'func': j[2], 'error': 'verifier process ended without a result (memory or time)'}
        results.append(d)
        log(f"  {d['spec']:<28} " + (d['error'][:160] if 'error' in d else
            f"ok {sum(v[2] == 'ok' for v in d['verdicts'])}/{len(d['verdicts'])} inv {d['inv_obligations']} loops {d['loops']} {d['wall_s']:.1f}s"))
    return results, info


def write_replay(pid, text):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}.txt')
    with open(p, 'w') as f:
        f.write(text)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-deductive', action='store_true')
    ap.add_argument('--learn', action='store_true', help='record invariant hints')
    a = ap.parse_args()
    pid = a.property
    conf = props.PROPS[pid]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp_')
    rc = 2
    try:
        rc = run(pid, conf, tier, seed, work, a, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, conf, tier, seed, work, a, t0):
    log = lambda *x: print(*x, flush=True)
    log(f'{pid} {tier}: {conf["title"]}')
    nat = None
    if conf.get('native') and not a.no_native:
        nat = Native(conf, tier, seed, work)
        nat.start()
    results, info = ([], {'emit_s': 0}) if a.no_deductive or not conf.get('units') else deductive(conf, tier, work, log, a.only.split(',') if a.only else None)
    if nat:
        nat.join()
        if nat.error:
            log('native machinery error:\n' + nat.error)
        if nat.compile_error:
            ok, out = build.repo_compiles(work)
            log('native program does not compile against the current sources (%s)' % ('the library itself compiles' if ok else 'the library itself does not compile') + '\n' + nat.compile_error[-1500:])
            if not ok:
                return 2
    # ---- verdicts
    ob = dis = triv = inv = 0
    solver_s = 0.0
    fails = []
    undecided = []
    maybe = []              # not proved, not refuted for certain: its model is only used as a test input
    functions = []
    trusted = set(conf.get('trusted', []))
    vac = []
    for d in results:
        if 'error' in d:
            undecided.append(f"{d['spec']}: {d['error']}")
            continue
        functions.append(d['func'])
        n_ok = sum(v[2] == 'ok' for v in d['verdicts'])
        ob += len(d['verdicts']) + d['trivial'] + d['inv_obligations']
        dis += n_ok + d['trivial'] + d['inv_obligations']
        inv += d['inv_obligations']
        triv += d['trivial']
        solver_s += d['solver_s']
        for k, v in d['trusted'].items():
            trusted.add(f'{k}: {v}')
        for nm, r in d['covers']:
            if r != 'sat':
                # an unreachable loop/return is fine for code the optimiser could not remove, but a cover goal
                # stated by the contract must be reachable or the contract proves nothing
                vac.append((d['spec'], nm, r))
        for v in d['verdicts']:
            if v[2] == 'fail':
                fails.append((d, v))
            elif v[2] != 'ok':
                undecided.append(f"{d['spec']}: {v[0]} (solver gave no answer)")
                if v[3]:
                    maybe.append((d, v))
    if a.learn:
        hints = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
        for d in results:
            if 'error' not in d and d.get('hash') and all(v[2] == 'ok' for v in d['verdicts']) and d['loops']:
                hints[d['spec']] = {d['hash']: d['hint']}
        with open(HINTS, 'w') as f:
            json.dump(hints, f, indent=0, sort_keys=True)
    for s, nm, r in vac:
        log(f'VACUITY {s}: "{nm}" is {r}')
        undecided.append(f'{s}: vacuity guard "{nm}" is {r}')
    # ---- concrete failing inputs
    concrete = list(nat.fails) if nat else []
    if nat and not nat.compile_error and not nat.error and (fails or maybe):
        # replay the verifier's counterexamples against the real code
        lines = []
        for d, v in fails + maybe:
            for nm, x in (v[3] or {}).items():
                if isinstance(x, dict) and 'data' in x and x['len'] <= 4096:
                    lines.append(f"{d['fn']} {nm} " + ','.join(str(c) for c in x['data']))
                elif isinstance(x, int):
                    lines.append(f"{d['fn']} {nm} ={x}")
        if lines:
            p = os.path.join(work, 'cex.txt')
            open(p, 'w').write('\n'.join(lines) + '\n')
            concrete += nat.parse(*nat.execute(['replay', p], 120))
    known = known_findings(pid)
    new_concrete = []
    hit = set()
    for k, t in concrete:
        m = [x for x in known if x[0] == k]
        if m:
            hit.add(m[0])
        else:
            new_concrete.append((k, t))
    for x in known:
        log(f'KNOWN-FINDING: property={pid} {x[1]}')
    nv = 0
    code = 0
    if new_concrete:
        nv = len(new_concrete)
        text = 'failing inputs against the real code (native program built from /repo, %s):\n' % conf.get('native')
        for k, t in new_concrete[:50]:
            text += f'{k} :: {t}\n'
        for d, v in fails:
            text += f"\nfailed obligation of {d['func']} ({d['fn']}): {v[0]} [{v[1]}]\n  verifier counterexample: {json.dumps(v[3])}\n"
        p = write_replay(pid, text)
        for k, t in new_concrete[:5]:
            log(f'  failing input: {k} :: {t[:300]}')
        log(f'VIOLATION property={pid} replay={p}')
        code = 1
    elif fails:
        nv = len(fails)
        text = 'obligations the verifier refutes (no concrete failing input was found by replay or bounded search):\n'
        for d, v in fails:
            text += f"failed obligation of {d['func']} ({d['fn']}): {v[0]} [{v[1]}]\n  verifier counterexample (start state of the failing step): {json.dumps(v[3])}\n  invariants in force: {d['kept']}\n"
            log(f"  failed obligation: {d['func']}: {v[0]}")
        p = write_replay(pid, text)
        log(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        code = 1
    for u in undecided:
        log('UNDECIDED ' + u[:400])
    assumptions = list(conf.get('assumptions', [])) + props.COMMON_ASSUMPTIONS
    cov = {
        'obligations': ob, 'discharged': dis,
        'checker_cmd': f'python3-vt check.py {pid} --tier {tier}  (irvc over clang-18 LLVM IR of /repo; z3 {z3v()})',
        'trusted_base': sorted(trusted) + props.TRUSTED_BASE,
        'functions_under_contract': sorted(set(functions)),
        'invariant_obligations': inv, 'simplified_away': triv,
        'solver_seconds': round(solver_s, 1), 'ir_emission_seconds': round(info.get('emit_s', 0), 1),
        'undecided': undecided,
        'per_function': [{'function': d['func'], 'obligations': len(d['verdicts']) + d['trivial'] + d['inv_obligations'], 'ok': sum(v[2] == 'ok' for v in d['verdicts']) + d['trivial'] + d['inv_obligations'],
                          'loops': d['loops'], 'ir_instructions': d['instrs'], 'seconds': round(d['wall_s'], 1)} for d in results if 'error' not in d],
    }
    if nat:
        cov['bounded_standin'] = {'program': 'native/' + conf['native'], 'bound': conf.get('bound', ''), 'evaluations': nat.stats.get('cases', 0),
                                  'counts': nat.stats, 'samples': nat.samples[:6], 'decided': not (nat.compile_error or nat.error)}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if conf.get('units') else 'exploration', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': nv}
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log(f'{pid}: {dis}/{ob} obligations discharged over {len(functions)} functions, bounded cases {nat.stats.get("cases", 0) if nat else 0}, {time.time() - t0:.1f}s' + (', violations %d' % nv if nv else ''))
    return code


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
