"""Discharges obligations with z3 (several configurations) and cvc5, in parallel worker processes."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time

import z3

import algebra
import vc as _vc


def smt2_of(o):
    s = z3.Solver()
    for h in _vc_unique(o.hyps):
        s.add(h)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def _vc_unique(fs):
    seen = set()
    out = []
    for f in fs:
        i = f.get_id()
        if i not in seen:
            seen.add(i)
            out.append(f)
    return out


CONFIGS = [
    ('z3', {}),
    ('z3 -mbqi', {'smt.mbqi': False, 'auto_config': False}),
    ('z3 seed', {'smt.random_seed': 7, 'smt.mbqi': False, 'auto_config': False, 'smt.arith.solver': 2}),
    ('z3 nl', {'smt.random_seed': 3, 'smt.arith.nl.rounds': 64}),
]


def _z3_check(text, cfg, ms, simple=False):
    ctx = z3.Context()
    s = z3.SimpleSolver(ctx=ctx) if simple else z3.Solver(ctx=ctx)
    for k, v in cfg.items():
        try:
            s.set(k, v)
        except z3.Z3Exception:
            pass
    s.set('timeout', int(ms))
    s.from_string(text)
    r = s.check()
    m = ''
    if r == z3.sat:
        try:
            mm = s.model()
            m = '; '.join(f'{d.name()} = {str(mm[d])[:160]}' for d in mm.decls() if not d.name().startswith('tbl_') and d.arity() == 0)[:3000].replace(chr(10), ' ')
        except z3.Z3Exception:
            m = ''
    reason = s.reason_unknown() if r == z3.unknown else ''
    return str(r), reason, m


def _cvc5_check(text, ms):
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + text)
        r = subprocess.run(['/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5', '--full-saturate-quant', f'--tlimit={int(ms)}', p],
                           capture_output=True, text=True, timeout=ms / 1000 + 20)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        return out if out in ('sat', 'unsat', 'unknown') else 'unknown', r.stderr[:200]
    except Exception as ex:     # noqa
        return 'unknown', str(ex)[:200]
    finally:
        os.unlink(p)


def _algebra(text, seconds, nonlinear=False):
    try:
        return algebra.prove(text, seconds, nonlinear)
    except z3.Z3Exception:
        return False


def _work(job):
    i, text, kind, ms, first = job
    t0 = time.time()
    if kind == 'cover':
        best = 'unsat'
        for t in text:
            r, why, m = _z3_check(t, {'smt.mbqi': False, 'auto_config': False}, 5000)
            if r != 'unsat':
                best = r
                break
        return i, best, 'z3', time.time() - t0, ''
    detail = ''
    sat = False
    order = [first] if first else []
    order += [c for c, _ in CONFIGS if c != first]
    cf = dict(CONFIGS)
    if kind in ('post', 'lemma') and _algebra(text, 4, True):
        return i, 'valid', 'algebra', time.time() - t0, ''
    # short round, then long round, then cvc5
    for rnd, lim in enumerate((1500, min(ms, 8000), ms)):
        for c in order:
            if c == 'cvc5':
                r, why = _cvc5_check(text, lim)
                m = ''
            else:
                r, why, m = _z3_check(text, cf[c], lim)
            if r == 'unsat':
                return i, 'valid', c, time.time() - t0, ''
            if r == 'sat':
                # z3's preprocessing can report sat wrongly for quantified formulas over arrays and datatypes: a counter-model
                # counts once neither z3 without preprocessing nor cvc5 refutes it
                if _z3_check(text, {}, min(ms, 5000), simple=True)[0] == 'unsat':
                    return i, 'valid', 'z3 simple', time.time() - t0, ''
                if _cvc5_check(text, min(ms, 5000))[0] == 'unsat':
                    return i, 'valid', 'cvc5', time.time() - t0, ''
                if rnd == 0 and _algebra(text, 10):
                    return i, 'valid', 'algebra', time.time() - t0, ''
                return i, 'invalid', c, time.time() - t0, 'counter-model: ' + m
            detail = f'{c}: unknown ({why})'
        if rnd <= 1 and _algebra(text, 10 if rnd == 0 else 60):
            return i, 'valid', 'algebra', time.time() - t0, ''
        if rnd <= 1:
            r, why = _cvc5_check(text, min(ms, 5000 if rnd == 0 else 15000))
            if r == 'unsat':
                return i, 'valid', 'cvc5', time.time() - t0, ''
            if r == 'sat':
                return i, 'invalid', 'cvc5', time.time() - t0, 'cvc5: sat'
        if rnd == 1 and ms <= 8000:
            break
    return i, 'unknown', 'z3,cvc5', time.time() - t0, detail


def discharge(obls, timeout_ms=60000, jobs=8, deadline=None, log=None):
    todo = []
    for i, o in enumerate(obls):
        if o.status is not None:
            continue
        if o.kind == 'cover':
            texts = []
            for hy in o.hyps[:4]:
                s = z3.Solver()
                for h in _vc_unique(hy):
                    s.add(h)
                texts.append(s.to_smt2())
            todo.append((i, texts, 'cover', timeout_ms, None))
        else:
            todo.append((i, smt2_of(o), o.kind, timeout_ms, None))
    if not todo:
        return
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, len(todo)), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_work, todo)
        for _ in range(len(todo)):
            try:
                i, st, be, t, det = it.next(timeout=max(1, deadline - time.time()) if deadline else None)
            except mp.TimeoutError:
                pool.terminate()
                break
            o = obls[i]
            o.status, o.backend, o.time, o.detail = st, be, t, det
            if log:
                log(o)
    for o in obls:
        if o.status is None:
            o.status, o.detail = 'unknown', 'time budget of the check used up'
