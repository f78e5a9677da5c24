"""Runs one check: extraction of /repo's current source, contract obligations, replay search on the real code, evidence."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import z3           # noqa: E402

import prove        # noqa: E402
import vc           # noqa: E402
from values import Undecided    # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = '/usr/bin/g++'


def tool_path():
    """the extractor; built on first use"""
    for cand in (os.path.join(VERIF, 'build', 'cxx2json'),):
        src = os.path.join(VERIF, 'tools', 'cxx2json.cpp')
        if os.path.exists(cand) and os.path.getmtime(cand) >= os.path.getmtime(src):
            return cand
    out = os.path.join(VERIF, 'build', 'cxx2json')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(['/bin/bash', os.path.join(VERIF, 'tools', 'build.sh'), out], capture_output=True, text=True)
    if r.returncode != 0:
        raise Undecided('the extractor does not build: ' + r.stderr[-500:])
    return out


class Unit:
    def __init__(self, name, fn, bounded=None):
        self.name, self.fn, self.bounded = name, fn, bounded


class Harness:
    def __init__(self, src, sources=(), libs=(), secs=(20, 240), flags=(), sanitize=True, opt='-O1', std='c++14', args=()):
        self.src, self.sources, self.libs, self.secs, self.flags, self.sanitize, self.opt, self.std, self.args = (
            src, sources, libs, secs, flags, sanitize, opt, std, args)


class PyHarness:
    def __init__(self, src, secs=(20, 240)):
        self.src, self.secs = src, secs


class Check:
    def __init__(self, pid, tus=None, assumptions=(), trusted=(), proof_scope=''):
        self.pid = pid
        self.tus = tus or {}
        self.units = []
        self.harnesses = []
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.proof_scope = proof_scope
        self.rule = ''
        self.extra_args = {}

    def unit(self, name, tu='main', bounded=None):
        def deco(f):
            f.tu = tu
            self.units.append(Unit(name, f, bounded))
            return f
        return deco

    def cpp(self, src, **kw):
        self.harnesses.append(Harness(src, **kw))

    def py(self, src, **kw):
        self.harnesses.append(PyHarness(src, **kw))

    # ------------------------------------------------------------ proof side
    def shapes(self):
        p = os.path.join(VERIF, 'engine', 'shapes.json')
        if os.path.exists(p):
            return json.load(open(p)).get(self.pid, {})
        return {}

    def run_unit(self, u, progfile, q, gen_deadline, shapes):
        os.setpgid(0, 0)
        t0 = time.time()
        vc.GEN_DEADLINE = min(gen_deadline, t0 + (200 if self.timeout_ms <= 60000 else 400))
        res = dict(name=u.name, status='ok', obls=[], reason='', functions=[], inlined=[], lib=[], contracts=[], gen_s=0.0, solver_s=0.0,
                   bounded=u.bounded)
        try:
            prog = vc.Program(json.load(open(progfile))) if progfile else None
            r = u.fn(prog) if prog is not None else u.fn()
            engines = r if isinstance(r, (list, tuple)) else [r]
            obls = []
            for E in engines:
                obls += E.obls
                res['functions'] += sorted(getattr(E, 'verified', []))
                res['inlined'] += sorted(E.inlined)
                res['lib'] += sorted(E.used_lib)
                res['contracts'] += sorted(E.used_contracts)
                res['solver_s'] += E.quick_t
                res['shapes'] = dict(res.get('shapes', {}), **getattr(E, 'shape_out', {}))
            res['gen_s'] = time.time() - t0
            if not [o for o in obls if o.kind != 'cover']:
                raise Undecided('no obligations were generated')
            prove.discharge(obls, timeout_ms=self.timeout_ms, jobs=4, deadline=gen_deadline)
            res['solver_s'] += sum(o.time for o in obls)
            for o in obls:
                res['obls'].append(dict(target=o.target, name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3),
                                        line=o.line, detail=o.detail[:3000]))
        except Undecided as ex:
            res['status'], res['reason'] = 'undecided', str(ex)[:1500]
        except RecursionError:
            res['status'], res['reason'] = 'undecided', 'recursion limit of the generator'
        except Exception as ex:     # noqa  (an engine failure is never a violation)
            res['status'], res['reason'] = 'undecided', 'generator: ' + ''.join(traceback.format_exception_only(type(ex), ex)).strip()[:600]
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        res['wall'] = time.time() - t0
        q.put(res)

    def run_proofs(self, scratch, deadline):
        results = []
        if not self.units:
            return results
        files = {}
        errs = {}
        only = os.environ.get('VERIF_ONLY')
        self.units = [u for u in self.units if not only or only in u.name]
        need = {u.fn.tu for u in self.units}
        try:
            tool = tool_path()
        except Undecided as ex:
            return [dict(name=u.name, status='undecided', obls=[], reason=str(ex), functions=[], inlined=[], lib=[], contracts=[], gen_s=0, solver_s=0,
                         wall=0, bounded=u.bounded) for u in self.units]

        def ext(k):
            if k is None:
                return
            try:
                p = vc.extract_raw(tool, self.tus[k], scratch, k, repo=REPO)
                files[k] = p
            except Undecided as ex:
                errs[k] = str(ex)

        ths = [threading.Thread(target=ext, args=(k,)) for k in need]
        [t.start() for t in ths]
        [t.join() for t in ths]
        ctx = mp.get_context('fork')
        pend = []
        for u in self.units:
            if u.fn.tu in errs:
                results.append(dict(name=u.name, status='undecided', obls=[], reason='extraction: ' + errs[u.fn.tu], functions=[], inlined=[], lib=[],
                                    contracts=[], gen_s=0, solver_s=0, wall=0, bounded=u.bounded))
            else:
                pend.append(u)
        running = {}
        limit = int(os.environ.get('VERIF_UNITS', '4'))
        while pend or running:
            if self.stop.is_set() and time.time() > self.stop_at:
                pend = []
            while pend and len(running) < limit:
                u = pend.pop(0)
                q = ctx.Queue()
                p = ctx.Process(target=self.run_unit, args=(u, files.get(u.fn.tu), q, deadline, {}))
                p.start()
                running[u.name] = (u, p, q)
            for n in list(running):
                u, p, q = running[n]
                try:
                    r = q.get(timeout=0.05)
                    results.append(r)
                    p.join(10)
                    del running[n]
                    continue
                except Exception:       # noqa
                    pass
                if not p.is_alive():
                    try:
                        results.append(q.get(timeout=1))
                    except Exception:   # noqa
                        results.append(dict(name=n, status='undecided', obls=[], reason='the generator died', functions=[], inlined=[], lib=[],
                                            contracts=[], gen_s=0, solver_s=0, wall=0, bounded=u.bounded))
                    del running[n]
                elif time.time() > deadline + 30 or (self.stop.is_set() and time.time() > self.stop_at):
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.kill()
                    results.append(dict(name=n, status='undecided', obls=[], reason='time budget', functions=[], inlined=[], lib=[], contracts=[],
                                        gen_s=0, solver_s=0, wall=0, bounded=u.bounded))
                    del running[n]
        return results

    # ------------------------------------------------------------ replay side
    def run_harness(self, h, scratch, seed, tier, deadline):
        """-> dict(status ok|fail|undecided, text, stats)"""
        secs = h.secs[1 if tier == 'thorough' else 0]
        name = os.path.splitext(os.path.basename(h.src))[0]
        wd = os.path.join(scratch, 'h_' + name)
        os.makedirs(wd, exist_ok=True)
        env = dict(os.environ, VERIF_REPO=REPO, HOME=wd, TMPDIR=wd,
                   ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0',
                   UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=66')
        if isinstance(h, PyHarness):
            cmd = [sys.executable, '-B', os.path.join(VERIF, 'harness', h.src)]
            env['PYTHONPATH'] = os.path.join(VERIF, 'harness')
        else:
            exe = os.path.join(wd, name)
            san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero'] if h.sanitize else []
            base = [CXX, '-std=' + h.std, h.opt, '-g1', '-w', *san, '-I' + REPO + '/include', '-isystem', '/usr/include/eigen3',
                    '-I' + os.path.join(VERIF, 'harness'), '-include', 'cstdint', '-include', 'sys/types.h', *h.flags]
            srcs = [os.path.join(VERIF, 'harness', h.src)] + [os.path.join(REPO, s) for s in h.sources]
            objs, procs = [], []
            for i, s in enumerate(srcs):
                o = os.path.join(wd, f'{i}.o')
                objs.append(o)
                procs.append(subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            bad = ''
            for p in procs:
                out, _ = p.communicate()
                if p.returncode:
                    bad += out[:2500]
            if not bad:
                r = subprocess.run([CXX, *san, *objs, '-o', exe, *h.libs, '-lpthread'], capture_output=True, text=True)
                bad = r.stderr[:2000] if r.returncode else ''
            if bad:
                return dict(status='undecided', text='the replay harness does not build against the current source:\n' + bad, stats={})
            cmd = [exe]
        secs = max(3.0, min(secs, deadline - time.time()))
        cur = os.path.join(wd, 'current_case')
        env.update(VH_SEED=str(seed), VH_SECS=str(secs), VH_TIER=tier, VH_CASE=cur, VH_DIR=wd)
        cmd += list(getattr(h, 'args', ()))
        lim = secs * 2 + 120
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, cwd=wd, timeout=lim)
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            rc, out, err = -99, (ex.stdout or b'').decode(errors='replace'), ''
        stats = {}
        for line in out.splitlines():
            if line.startswith('VH-STATS '):
                try:
                    stats = json.loads(line[9:])
                except ValueError:
                    pass
        case = ''
        if os.path.exists(cur):
            case = open(cur, errors='replace').read().split('\0')[0].strip()
        fails = [x[8:] for x in out.splitlines() if x.startswith('VH-FAIL ')]
        known = [x[9:] for x in out.splitlines() if x.startswith('VH-KNOWN ')]
        if rc == 0 and stats:
            return dict(status='ok', text='', stats=stats, known=known)
        if rc == 10 and fails:
            return dict(status='fail', text='\n'.join(fails[:20]), stats=stats, known=known)
        if rc == 11:
            return dict(status='fail', text=f'does not return (case still running after the per-case limit): {case}', stats=stats, known=known)
        if rc in (66, -6, -11, -8, -4, 134, 139, 136) and case:
            return dict(status='fail', text=f'the real code crashes or aborts (exit {rc}) on this case: {case}\n{err[-3000:]}', stats=stats, known=known)
        return dict(status='undecided', text=f'the harness ended with {rc}: {(out + err)[-1500:]}', stats=stats, known=known)

    # ------------------------------------------------------------ main
    def main(self):
        t0 = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        if '--thorough' in sys.argv:
            tier = 'thorough'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        self.timeout_ms = int(os.environ.get('VERIF_TMO', 45000 if tier == 'quick' else 150000))
        deadline = t0 + (420 if tier == 'quick' else 780)
        for stale in (os.path.join(VERIF, 'evidence', 'replay', self.pid + '.txt'), os.path.join(VERIF, 'evidence', self.pid + '.json')):
            if os.path.exists(stale):
                os.unlink(stale)
        scratch = tempfile.mkdtemp(prefix='vc_' + self.pid + '_')
        hres = []
        self.stop = threading.Event()
        lock = threading.Lock()

        def side():
            for h in self.harnesses:
                try:
                    r = self.run_harness(h, scratch, seed, tier, t0 + 700)
                except Exception as ex:     # noqa
                    r = dict(status='undecided', text='harness driver: ' + str(ex), stats={})
                r['src'] = h.src
                with lock:
                    hres.append(r)
                if r['status'] == 'fail':
                    # a failing input is known: the proofs need not be exhausted
                    self.stop_at = time.time() + 20
                    self.stop.set()

        th = threading.Thread(target=side)
        try:
            th.start()
            pres = self.run_proofs(scratch, deadline) if '--no-proof' not in sys.argv else []
            th.join()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return self.report(tier, seed, pres, hres, t0)

    def report(self, tier, seed, pres, hres, t0):
        obls = [o for r in pres for o in r['obls'] if o['kind'] != 'cover']
        covers = [o for r in pres for o in r['obls'] if o['kind'] == 'cover']
        vac = [o for o in covers if o['status'] == 'unsat']
        failed = [o for o in obls if o['status'] != 'valid']
        und = [r for r in pres if r['status'] != 'ok']
        hfail = [h for h in hres if h['status'] == 'fail']
        hund = [h for h in hres if h['status'] == 'undecided']
        ev = sum(h['stats'].get('evaluations', 0) for h in hres)
        dn = sum(h['stats'].get('distinct', 0) for h in hres)
        samples = [s for h in hres for s in h['stats'].get('samples', [])][:6]
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        evp = os.path.join(VERIF, 'evidence', self.pid + '.json')
        bydone = {}
        for o in obls:
            if o['status'] == 'valid':
                bydone[o['backend']] = bydone.get(o['backend'], 0) + 1
        complete = bool(obls) and not failed and not und and not vac
        level = 'proof' if complete else 'exploration'
        cov = dict(
            obligations=len(obls), discharged=sum(1 for o in obls if o['status'] == 'valid'),
            checker_cmd=f'python3-vt checks/{self.pid.lower()}.py (engine/vc.py generates, z3 {z3.get_version_string()} and cvc5 discharge)',
            trusted_base=['clang 18 front end and tools/cxx2json.cpp (lowering of the AST of the current source; bodies are never rewritten by hand)',
                          'engine/vc.py, engine/values.py, engine/lib.py (verification-condition generator and library contracts)',
                          'z3, cvc5'] + self.trusted,
            by_backend=bydone, solver_s=round(sum(r['solver_s'] for r in pres), 2),
            functions_under_contract=sorted({f for r in pres if r['status'] == 'ok' for f in r['functions']}),
            functions_inlined=sorted({f for r in pres for f in r['inlined']}),
            callee_contracts_used=sorted({f for r in pres for f in r['contracts']}),
            library_contracts_assumed=sorted({f for r in pres for f in r['lib']}),
            vacuity_checks=len(covers), vacuous=len(vac),
            units=[dict(unit=r['name'], status=r['status'], reason=r['reason'][:400], obligations=sum(1 for o in r['obls'] if o['kind'] != 'cover'),
                        seconds=round(r['wall'], 1)) for r in pres],
            proof_scope=self.proof_scope,
            evaluations=ev, distinct_nontrivial=dn,
            rule=self.rule or 'executable form of the contract, run on the real code under ASan/UBSan on generated inputs (bounded, not counted as proof); '
                 'a case is distinct by its generated input and non-trivial when the operation did work (harness comment gives the rule)',
            samples=samples or [dict(obligation=o['name'], function=o['target'], status=o['status'], backend=o['backend']) for o in obls[:3]] or ['none'],
            slowest=[dict(obligation=o['name'], function=o['target'], s=o['time']) for o in sorted(obls, key=lambda o: -o['time'])[:3]],
        )
        if not complete:
            cov['explanation'] = 'not every obligation was decided on this tree; the bounded run of the executable contracts stands in'
        if failed:
            cov['failed_obligations'] = [f"{o['target']}: {o['name']} (line {o['line']}) {o['status']}" for o in failed[:20]]
        viol = 1 if (hfail or failed) else 0
        json.dump(dict(property=self.pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=self.assumptions + [
            'object sizes stay below 2^60 elements and allocation does not fail',
            'unsigned arithmetic is exact modulo 2^w; signed overflow is an obligation; double arithmetic is treated as real arithmetic unless the unit says fp'],
            wall_s=round(time.time() - t0, 2), violations=viol), open(evp, 'w'), indent=1)
        for h in hres:
            for k in h.get('known', []):
                print(f'KNOWN-FINDING: property={self.pid} {k}')
        for r in und:
            print(f'NOTE {self.pid}: unit {r["name"]} undecided: {r["reason"][:700]}')
        for o in vac:
            print(f'NOTE {self.pid}: vacuous: {o["target"]}: {o["name"]}')
        for h in hund:
            print(f'NOTE {self.pid}: harness {h["src"]}: {h["text"][:1500]}')
        print(f'{self.pid}: {cov["discharged"]}/{len(obls)} obligations discharged in {len(pres)} units ({len(und)} undecided), '
              f'{ev} replay evaluations ({dn} distinct), {time.time() - t0:.1f} s')
        rp = os.path.join(VERIF, 'evidence', 'replay', self.pid + '.txt')
        if hfail:
            with open(rp, 'w') as f:
                f.write(f'property {self.pid}: the executable contract fails on the real code\nharness: harness/{hfail[0]["src"]} seed={seed} tier={tier}\n'
                        f'replay: VERIF_SEED={seed} VERIF_TIER={tier} python3-vt checks/{self.pid.lower()}.py --no-proof\n\n')
                for h in hfail:
                    f.write(f'--- {h["src"]}\n{h["text"]}\n')
                if failed:
                    f.write('\nfailed obligations:\n' + '\n'.join(f'{o["target"]}: {o["name"]} (line {o["line"]}): {o["status"]} {o["detail"][:500]}' for o in failed) + '\n')
            print(hfail[0]['text'][:1200])
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if failed:
            with open(rp, 'w') as f:
                f.write(f'property {self.pid}: obligations not discharged on the current source\n')
                for o in failed:
                    f.write(f'\nobligation: {o["target"]}: {o["name"]}\n  source line {o["line"]}, kind {o["kind"]}, verdict {o["status"]}\n  {o["detail"]}\n')
            for o in failed[:6]:
                print(f'  failed obligation: {o["target"]}: {o["name"]} (line {o["line"]}): {o["status"]}')
            print(f'VIOLATION property={self.pid} replay={rp} no-failing-input-found')
            return 1
        return 0


def run(c):
    try:
        rc = c.main()
    except SystemExit:
        raise
    except BaseException as ex:     # noqa
        traceback.print_exc()
        print('NOTE internal error of the check:', ex)
        os._exit(2)
    sys.stdout.flush()
    os._exit(rc)
