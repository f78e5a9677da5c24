"""VC generator: forward symbolic execution of the lowered clang AST with contracts and loop invariants."""
import json
import math
import os
import subprocess
import time
from fractions import Fraction

import z3

from values import *
import lib as stdlib


GEN_DEADLINE = None      # set by the framework


class ObligationRec:
    def __init__(self, target, name, kind, hyps, goal, line, hints=None):
        self.target, self.name, self.kind, self.hyps, self.goal, self.line = target, name, kind, hyps, goal, line
        self.status = None
        self.backend = None
        self.time = 0.0
        self.detail = ''
        self.hints = hints or []


class State:
    __slots__ = ('slots', 'stypes', 'frames', 'pc', 'ghost', 'facts')

    def __init__(self):
        self.slots = {}
        self.stypes = {}
        self.frames = []
        self.pc = []
        self.ghost = {}
        self.facts = set()

    def copy(self):
        s = State()
        s.slots = dict(self.slots)
        s.stypes = dict(self.stypes)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.facts = set(self.facts)
        return s

    def assume(self, *fs):
        for f in fs:
            if f is True or z3.is_true(f):
                continue
            h = f.get_id() if is_z3(f) else None
            if h in self.facts:
                continue
            self.facts.add(h)
            self.pc.append(f)


class Frame:
    __slots__ = ('vars', 'names', 'this', 'fn', 'chain', 'types')

    def __init__(self, fn, chain):
        self.vars = {}      # decl id -> LV
        self.names = {}     # name -> decl id
        self.types = {}
        self.this = None
        self.fn = fn
        self.chain = chain

    def copy(self):
        f = Frame(self.fn, self.chain)
        f.vars = dict(self.vars)
        f.names = dict(self.names)
        f.types = dict(self.types)
        f.this = self.this
        return f


class Program:
    """lowered translation unit"""

    def __init__(self, d, cfg_ints='int', cfg_reals='real'):
        self.d = d
        self.records = d['records']
        self._ty = {}
        self.types = d['types']
        self.fns = {f['id']: f for f in d['functions']}
        self.globals = {g['id']: g for g in d['globals']}

    def ty(self, i):
        t = self._ty.get(i)
        if t is None:
            t = Ty(self.types[i], self, i)
            self._ty[i] = t
        return t

    def find(self, q, pred=None):
        r = [f for f in self.d['functions'] if f['q'] == q and (pred is None or pred(self, f))]
        if not r:
            raise Undecided(f'function {q} not found in the sources')
        return r

    def fn(self, q, pred=None):
        r = self.find(q, pred)
        if len(r) > 1:
            raise Undecided(f'{q} is ambiguous ({len(r)})')
        return r[0]


CLANG_ARGS = ['-std=c++14', '-I/repo/include', '-isystem', '/usr/include/eigen3', '-I/verif/tools/stubs', '-include',
              'cstdint', '-include', 'sys/types.h', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']


def extract_raw(tool, tu_text, scratch, name='tu', extra=(), repo='/repo'):
    """lower one translation unit that includes the real sources; returns the path of the JSON"""
    src = os.path.join(scratch, name + '.cpp')
    with open(src, 'w') as f:
        f.write(tu_text.replace('/repo/', repo + '/'))
    stubs = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools', 'stubs')
    args = [a.replace('/repo', repo).replace('/verif/tools/stubs', stubs) for a in CLANG_ARGS]
    out = os.path.join(scratch, name + '.json')
    with open(out, 'w') as f:
        r = subprocess.run([tool, src, repo + '/', '--'] + args + list(extra), stdout=f, stderr=subprocess.PIPE, text=True, errors='replace')
    if r.returncode != 0 or os.path.getsize(out) < 10:
        raise Undecided('extraction failed: ' + r.stderr[:1500])
    return out


class Ctx:
    """what a contract sees: arguments, result, initial and final states"""

    def __init__(self, E, fn, args, this, st0, st1=None, ret=None):
        self.E, self.fn, self._args, self._this, self.st0, self.st1, self.ret = E, fn, args, this, st0, st1, ret

    def arg(self, i):          # value on entry
        a = self._args[i]
        return self.E.read(self.st0, a) if isinstance(a, LV) else a

    def fin(self, i):          # value on exit
        a = self._args[i]
        return self.E.read(self.st1, a) if isinstance(a, LV) else a

    @property
    def this(self):
        return self.E.read(self.st0, self._this)

    @property
    def this1(self):
        return self.E.read(self.st1, self._this)


class LoopCtx:
    def __init__(self, E, st, entry, frames_n, target, iterlv=None):
        self.E, self.st, self.entry, self.target = E, st, entry, target
        self.hidden = iterlv

    def _find(self, name):
        for alt in name.split('|'):
            for fr in reversed(self.st.frames):
                if alt in fr.names:
                    return fr.vars[fr.names[alt]]
        return None

    def lv(self, name):
        lv = self._find(name)
        if lv is None:
            lv = self.E.recover_name(self.st, name)
        return lv

    def has(self, name):
        return self._find(name) is not None

    def __getitem__(self, name):
        return self.E.read(self.st, self.lv(name))

    def old(self, name):
        return self.E.read(self.entry, self.lv(name))

    @property
    def this(self):
        return self.E.read(self.st, self.st.frames[-1].this)

    @property
    def pos(self):
        """position of a range-for loop"""
        if self.hidden is None:
            raise Undecided('no hidden position')
        return self.E.read(self.st, self.hidden)

    def ghost(self, k):
        return self.st.ghost[k]

    def argv(self, i):
        """i-th argument of the verified function, current value"""
        a = self.E.top_args[i]
        return self.E.read(self.st, a) if isinstance(a, LV) else a


class Contract:
    """contract of a callee: pre(ctx) -> [(name, formula)], post(ctx) -> [(name, formula)];
    modifies: None = every non-const reference argument and a non-const this"""

    def __init__(self, pre=None, post=None, modifies=None, pure=None, may_throw=False, result=None):
        self.pre, self.post, self.modifies, self.pure, self.result = pre, post, modifies, pure, result


class Engine:
    def __init__(self, prog, ints='int', reals='real', ext_inf=False, contracts=None, max_inline=40, overflow=True,
                 unroll=20, merge=False, prune=True, quick_ms=250, intlib=None):
        self.P = prog
        self.S = Sorts(ints, reals)
        self.ints, self.reals, self.ext_inf = ints, reals, ext_inf
        self.contracts = contracts or {}
        self.pq_guard = None
        self.pq_hints = ()
        self.obls = []
        self.fresh_n = 0
        self.max_inline = max_inline
        self.dry = None
        self.overflow = overflow
        self.unroll = unroll
        self.merge = merge
        self.prune = prune
        self.quick_ms = quick_ms
        self.sid = 0
        self.target = None
        self.target_id = None
        self.axioms = []
        self.INF = z3.Real('INF')
        if reals == 'real':
            self.axioms.append(self.INF >= z3.RealVal(10) ** 30)
        self.loop_ids = {}
        self.loop_specs = []
        self.ufs = {}
        self.lincomb, self.products = {}, {}
        self.after, self.after_seen = {}, set()      # lemmas at the declaration of a local variable: name -> f(state, view)
        self.inlined = set()
        self.used_lib = set()
        self.used_contracts = set()
        self.quick_n = 0
        self.quick_t = 0.0
        self.tables = {}
        self.ladders = {}
        self.merge_facts = []
        self.verified = set()
        self.shape_out = {}
        self.shapes = {}
        self.rename = {}
        self.top_args = []
        self.stats_paths = 0
        self.deadline = GEN_DEADLINE
        self.extra_lib = {}
        self.assert_ok = False
        self.qcache = {}
        self.keep = []

    # ------------------------------------------------------------ helpers
    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const(f'{base}!{self.fresh_n}', sort)

    def new_slot(self, st, ty, val):
        self.sid += 1
        st.slots[self.sid] = val
        st.stypes[self.sid] = ty.deref() if ty is not None else None
        return LV(self.sid)

    def ty(self, e):
        return self.P.ty(e['t'])

    def IV(self, n, t=None):
        if self.ints == 'bv' and t is not None:
            return z3.BitVecVal(n, t.w)
        if self.ints == 'bv':
            return z3.BitVecVal(n, 64)
        return z3.IntVal(n)

    def rng(self, t):
        if t.k == 'bool':
            return 0, 1
        if t.sg:
            return -(1 << (t.w - 1)), (1 << (t.w - 1)) - 1
        return 0, (1 << t.w) - 1

    def range_fact(self, t, v):
        if self.ints == 'bv' or not t.isint:
            return None
        if z3.is_int_value(v):
            return None
        lo, hi = self.rng(t)
        return z3.And(v >= lo, v <= hi)

    def quick(self, st, goal, ms=None):
        """is goal valid under the quantifier-free part of the path condition?"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not st.pc:
            return False
        key = (len(st.pc), st.pc[-1].get_id() if st.pc else 0, goal.get_id())
        if key in self.qcache:
            return self.qcache[key]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms or self.quick_ms)
        for f in self.axioms + st.pc:
            if not has_quant(f):
                s.add(f)
        s.add(z3.Not(goal))
        r = s.check() == z3.unsat
        self.quick_n += 1
        self.quick_t += time.time() - t0
        self.keep.append(goal)
        self.qcache[key] = r
        if self.deadline and time.time() > self.deadline:
            raise Undecided('VC generation ran out of time')
        return r

    def oblige(self, st, name, goal, kind='assert', line=None):
        if self.dry is not None:
            return
        if is_z3(goal) and z3.is_true(z3.simplify(goal)):
            o = ObligationRec(self.target, name, kind, [], goal, line)
            o.status, o.backend = 'valid', 'simplifier'
            self.obls.append(o)
            return
        if kind in ('overflow', 'bounds', 'arith') and self.quick(st, goal):
            o = ObligationRec(self.target, name, kind, [], goal, line)
            o.status, o.backend = 'valid', 'z3'
            self.obls.append(o)
            st.assume(goal)
            return
        self.obls.append(ObligationRec(self.target, name, kind, list(self.axioms) + list(st.pc), goal, line))
        if kind in ('overflow', 'bounds', 'arith', 'assert'):
            st.assume(goal)     # continue under the checked condition

    def lemma(self, st, name, goal):
        """prove, then use"""
        self.oblige(st, 'lemma: ' + name, goal, 'lemma')
        st.assume(goal)

    # ------------------------------------------------------------ havoc
    def havoc(self, st, ty, base):
        ty = ty.deref()
        s = self.S.scalar(ty)
        if s is not None:
            v = self.fresh(base, s)
            f = self.range_fact(ty, v)
            if f is not None:
                st.assume(f)
            if ty.k == 'float' and self.reals == 'real':
                st.assume(v <= self.INF, v >= -self.INF)
            return v
        if ty.is_vec:
            ln = self.fresh(base + '.len', self.S.index())
            if ty.k == 'arr':
                st.assume(ln == ty.raw['n'])
                ln = self.IV(ty.raw['n'])
            elif ty.n == 'std::array':
                ln = self.IV(ty.args[1])
            else:
                self.assume_len(st, ln)
            arr = self.fresh(base + '.arr', z3.ArraySort(self.S.index(), self.S.sort(ty.velem)))
            return VV(ty, ln, arr)
        if ty.is_map or ty.is_set:
            ks = self.S.sort(ty.args[0])
            sz = self.fresh(base + '.size', self.S.index())
            self.assume_len(st, sz)
            return MV(ty, self.fresh(base + '.dom', z3.ArraySort(ks, z3.BoolSort())),
                      self.fresh(base + '.val', z3.ArraySort(ks, self.S.sort(ty.args[1]) if ty.is_map else z3.BoolSort())), sz)
        if ty.is_pq:
            ln = self.fresh(base + '.len', self.S.index())
            self.assume_len(st, ln)
            arr = self.fresh(base + '.arr', z3.ArraySort(self.S.index(), self.S.sort(ty.args[0])))
            return VV(ty, ln, arr)
        if ty.is_mat:
            r, c = ty.mshape
            sc = self.S.scalar(ty.args[0])
            if r > 0 and c > 0:
                m = FM([[self.fresh(f'{base}.{i}{j}', sc) for j in range(c)] for i in range(r)], ty)
                for row in m.e:
                    for x in row:
                        if ty.args[0].k == 'float' and self.reals == 'real':
                            st.assume(x < self.INF, x > -self.INF)
                if ty.n == 'Eigen::Transform':
                    m.e[-1] = [z3.RealVal(int(j == c - 1)) for j in range(c)]
                return m
            rows = z3.IntVal(r) if r > 0 else self.fresh(base + '.rows', z3.IntSort())
            cols = z3.IntVal(c) if c > 0 else self.fresh(base + '.cols', z3.IntSort())
            for x in (rows, cols):
                if not z3.is_int_value(x):
                    st.assume(x >= 0, x <= MAXLEN)
            return DM(rows, cols, self.fresh(base + '.arr', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), sc))), ty)
        if ty.is_struct:
            return SV(ty, {n: self.havoc(st, ft, base + '.' + n) for n, ft in ty.fields()})
        if ty.is_fun:
            at = ty.args[0]
            return self.ufun(st, ty, base)
        if ty.k == 'ptr':
            return Opaque('ptr')
        return Opaque(ty.s)

    def assume_len(self, st, ln):
        if self.ints == 'bv':
            st.assume(z3.ULE(ln, MAXLEN))
        else:
            st.assume(ln >= 0, ln <= MAXLEN)

    def ufun(self, st, ty, base):
        return UFun(base, None, None)

    def call_ufun(self, st, u, args, rty):
        """args: list of (Ty, value)"""
        packed = [self.S.pack(t.deref(), v) for t, v in args]
        rs = self.S.sort(rty)
        key = (u.name, tuple(str(p.sort()) for p in packed), str(rs))
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function(u.name, *[p.sort() for p in packed], rs) if packed else None
            if f is None:
                hook = getattr(self, 'nullary', {}).get(u.name)
                if hook is None:
                    raise Undecided('call of an unknown function without arguments')
                v = self.havoc(st, rty, u.name)
                st.assume(hook(v))
                return v
            self.ufs[key] = f
        u.fn = f
        r = f(*packed)
        v = self.S.unpack(rty, r)
        self.leaf_facts(st, rty, v)
        if hasattr(u, 'post') and u.post:
            pass
        return v

    def leaf_facts(self, st, ty, v):
        """type-range facts of a value read from a container (true of every stored value)"""
        ty = ty.deref()
        if is_z3(v):
            f = self.range_fact(ty, v)
            if f is not None:
                st.assume(f)
            if ty.k == 'float' and self.reals == 'real' and not z3.is_rational_value(v):
                st.assume(z3.And(v <= self.INF, v >= -self.INF))
        elif isinstance(v, VV):
            if not z3.is_int_value(v.len) and not z3.is_bv_value(v.len):
                self.assume_len(st, v.len)
        elif isinstance(v, SV):
            for n, ft in ty.fields():
                self.leaf_facts(st, ft, v.f[n])
        elif isinstance(v, MV):
            self.assume_len(st, v.size)
        elif isinstance(v, DM):
            st.assume(v.rows >= 0, v.cols >= 0, v.rows <= MAXLEN, v.cols <= MAXLEN)

    # ------------------------------------------------------------ lvalues
    def acc_type(self, st, lv):
        t = st.stypes[lv.sid]
        for a in lv.acc:
            if a[0] == 'f':
                t = dict(t.fields())[a[1]].deref()
            elif a[0] == 'i':
                t = t.velem if t.is_vec else t.args[0]
            elif a[0] == 'k':
                t = t.args[1]
            elif a[0] == 'm':
                t = t.args[0]
            else:
                raise Undecided('accessor ' + a[0])
        return t

    def read(self, st, lv):
        v = st.slots[lv.sid]
        for n, a in enumerate(lv.acc):
            v = self.read_acc(st, v, a)
        return v

    def read_acc(self, st, v, a):
        if a[0] == 'f':
            if isinstance(v, SV):
                return v.f[a[1]]
            if isinstance(v, LV):
                return self.read_acc(st, self.read(st, v), a)
            raise Undecided(f'field {a[1]} of {type(v).__name__}')
        if a[0] == 'i':
            nm = v.arr.decl().name() if z3.is_const(v.arr) else None
            if nm in self.ladders:
                return self.ladder(nm, a[1], v.et)
            x = self.S.unpack(v.et if not v.ty.is_pq else v.ty.args[0], z3.Select(v.arr, a[1]))
            self.leaf_facts(st, v.et if not v.ty.is_pq else v.ty.args[0], x)
            return x
        if a[0] == 'k':
            x = self.S.unpack(v.ty.args[1], z3.Select(v.val, a[1]))
            self.leaf_facts(st, v.ty.args[1], x)
            return x
        if a[0] == 'm':
            return self.mat_get(v, a[1], a[2])
        if a[0] == 'blk' and isinstance(v, FM):
            return FM([row[a[2]:a[2] + a[4]] for row in v.e[a[1]:a[1] + a[3]]])
        if a[0] == 'line' and isinstance(v, DM):
            el = lambda i, j: z3.Select(z3.Select(v.arr, i), j)
            return FM([[el(k, a[2]) if a[1] == 'col' else el(a[2] + k, z3.IntVal(0))] for k in range(a[3])]) if a[1] != 'row' else FM([[el(a[2], k) for k in range(a[3])]])
        if a[0] == 'dcol' and isinstance(v, DM):
            return self.getcol(v, a[1])
        raise Undecided('read ' + a[0])

    def mat_get(self, v, i, j):
        if isinstance(v, FM):
            i2, j2 = z3.simplify(self.toint(i)), z3.simplify(self.toint(j))
            if z3.is_int_value(i2) and z3.is_int_value(j2):
                return v.e[i2.as_long()][j2.as_long()]
            r = v.e[v.r - 1][v.c - 1]
            for a in range(v.r - 1, -1, -1):
                for b in range(v.c - 1, -1, -1):
                    r = z3.If(z3.And(i2 == a, j2 == b), v.e[a][b], r)
            return r
        return z3.Select(z3.Select(v.arr, i), j)

    def toint(self, x):
        if z3.is_bv(x):
            return z3.BV2Int(x)
        return x

    def store(self, st, arr, i, x):
        """array update, named so that quantifier patterns stay simple"""
        n = self.fresh('a', arr.sort())
        st.assume(n == z3.Store(arr, i, x))
        return n

    def named(self, st, term):
        if z3.is_const(term) and term.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return term
        n = self.fresh('a', term.sort())
        st.assume(n == term)
        return n

    def write(self, st, lv, val):
        if self.dry is not None:
            self.dry.append(lv)
        st.slots[lv.sid] = self.upd(st, st.slots[lv.sid], lv.acc, val)

    def upd(self, st, v, acc, val):
        if not acc:
            return val
        a = acc[0]
        if a[0] == 'f':
            f = dict(v.f)
            f[a[1]] = self.upd(st, f[a[1]], acc[1:], val)
            return SV(v.ty, f)
        if a[0] == 'i':
            et = v.ty.args[0] if v.ty.is_pq else v.et
            if len(acc) == 1:
                nv = val
            else:
                nv = self.upd(st, self.S.unpack(et, z3.Select(v.arr, a[1])), acc[1:], val)
            return VV(v.ty, v.len, self.store(st, v.arr, a[1], self.S.pack(et, nv)))
        if a[0] == 'k':
            et = v.ty.args[1]
            nv = val if len(acc) == 1 else self.upd(st, self.S.unpack(et, z3.Select(v.val, a[1])), acc[1:], val)
            return MV(v.ty, v.dom, self.store(st, v.val, a[1], self.S.pack(et, nv)), v.size)
        if a[0] == 'm':
            if isinstance(v, FM):
                i2, j2 = z3.simplify(self.toint(a[1])), z3.simplify(self.toint(a[2]))
                return FM([[z3.simplify(z3.If(z3.And(i2 == r, j2 == c), val, v.e[r][c])) if not (
                    z3.is_int_value(i2) and z3.is_int_value(j2)) else (
                    val if (i2.as_long() == r and j2.as_long() == c) else v.e[r][c])
                    for c in range(v.c)] for r in range(v.r)], v.ty)
            row = z3.Select(v.arr, a[1])
            return DM(v.rows, v.cols, self.store(st, v.arr, a[1], z3.Store(row, a[2], val)), v.ty)
        if a[0] == 'blk' and isinstance(v, FM):
            sub = self.upd(st, FM([row[a[2]:a[2] + a[4]] for row in v.e[a[1]:a[1] + a[3]]]), acc[1:], val)
            if len(sub.e) != a[3] or len(sub.e[0]) != a[4]:
                raise Undecided('block of another shape')
            return FM([[sub.e[i - a[1]][j - a[2]] if a[1] <= i < a[1] + a[3] and a[2] <= j < a[2] + a[4] else v.e[i][j] for j in range(v.c)] for i in range(v.r)], v.ty)
        if a[0] == 'line' and isinstance(v, DM) and len(acc) == 1 and isinstance(val, FM) and val.r * val.c == a[3]:
            arr = v.arr
            for k, x in enumerate(x for row in val.e for x in row):
                i, j = (z3.IntVal(k), a[2]) if a[1] == 'col' else (a[2], z3.IntVal(k)) if a[1] == 'row' else (a[2] + k, z3.IntVal(0))
                arr = self.store(st, arr, i, z3.Store(z3.Select(arr, i), j, x))
            return DM(v.rows, v.cols, arr, v.ty)
        if a[0] == 'dcol' and isinstance(v, DM) and len(acc) == 1 and isinstance(val, DM):
            i, j = z3.Ints('i j')
            row = z3.is_int_value(z3.simplify(val.rows)) and not z3.is_int_value(z3.simplify(v.rows))
            self.oblige(st, 'Eigen sizes agree in a column assignment', v.rows == (val.cols if row else val.rows), 'bounds')
            arr = self.fresh('setcol', v.arr.sort())
            el = lambda a, i, j: z3.Select(z3.Select(a, i), j)
            st.assume(FA([i, j], el(arr, i, j) == z3.If(j == a[1], el(val.arr, 0, i) if row else el(val.arr, i, 0), el(v.arr, i, j)), el(arr, i, j)))
            return DM(v.rows, v.cols, arr, v.ty)
        raise Undecided('write ' + a[0])

    def recover_name(self, st, name):
        """a local variable was renamed: find the only local of the recorded type that is not otherwise named"""
        shape = self.shapes.get(self.target, {})
        alts = name.split('|')
        want = next((shape[a] for a in alts if a in shape), None)
        if want is None:
            raise Undecided(f'variable {name} not found')
        cands = []
        for fr in st.frames:
            for n, did in fr.names.items():
                if n not in shape and fr.types.get(did) == want:
                    cands.append((n, fr.vars[did]))
        uniq = {c[1]: c for c in cands}
        if len(uniq) == 1:
            return list(uniq.values())[0][1]
        raise Undecided(f'variable {name} not found (candidates {[c[0] for c in cands]})')

    # ------------------------------------------------------------ default values
    def default(self, st, ty, zero=True):
        """value-initialised object (C++ T())"""
        ty = ty.deref()
        if ty.k == 'bool':
            return z3.BoolVal(False)
        if ty.isint:
            return self.IV(0, ty)
        if ty.k == 'float':
            return self.fval(0.0, ty)
        if ty.is_vec and ty.k != 'arr' and ty.n != 'std::array' or ty.is_pq:
            et = ty.args[0]
            return VV(ty, self.IV(0), self.fresh('empty', z3.ArraySort(self.S.index(), self.S.sort(et))))
        if ty.is_vec:
            n = ty.raw['n'] if ty.k == 'arr' else ty.args[1]
            return VV(ty, self.IV(n), z3.K(self.S.index(), self.S.pack(ty.velem, self.default(st, ty.velem))))
        if ty.is_map or ty.is_set:
            ks = self.S.sort(ty.args[0])
            vs = self.S.sort(ty.args[1]) if ty.is_map else z3.BoolSort()
            return MV(ty, z3.K(ks, z3.BoolVal(False)), self.fresh('emap', z3.ArraySort(ks, vs)), self.IV(0))
        if ty.is_mat:
            r, c = ty.mshape
            if r > 0 and c > 0:
                return self.havoc(st, ty, 'uninit')
            return DM(z3.IntVal(max(r, 0)), z3.IntVal(max(c, 0)),
                      self.fresh('emat', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), self.S.scalar(ty.args[0])))), ty)
        if ty.is_struct:
            return SV(ty, {n: self.default(st, ft) for n, ft in ty.fields()})
        if ty.k == 'ptr':
            return Ptr(None)
        return Opaque(ty.s)

    def fval(self, x, ty=None):
        if self.reals == 'real':
            if math.isinf(x):
                return self.INF if x > 0 else -self.INF
            if math.isnan(x):
                raise Undecided('NaN literal in real mode')
            fr = Fraction(x)
            return z3.RealVal(f'{fr.numerator}/{fr.denominator}')
        so = z3.Float64() if ty is None or ty.w == 64 else z3.Float32()
        if math.isinf(x):
            return z3.fpPlusInfinity(so) if x > 0 else z3.fpMinusInfinity(so)
        if math.isnan(x):
            return z3.fpNaN(so)
        return z3.FPVal(x, so)

    # ------------------------------------------------------------ verification entry
    def verify(self, fn, pre=None, post=None, loops=None, throws=None, name=None, this_inv=None, setup=None, throw_post=None,
               allow_abort=None, locals_shape=None):
        """generate the obligations of one function against its contract"""
        self.target = name or fn['q']
        self.target_id = fn['id']
        self.verified.add(self.target)
        self.loop_specs = list(loops or [])
        self.loop_ids = {}
        self.allow_abort = allow_abort
        st = State()
        fr = Frame(fn, ())
        st.frames.append(fr)
        is_ctor = fn.get('ctor')
        this = None
        if 'cls' in fn and not fn.get('static'):
            ct = self.P.ty(fn['cls'])
            this = self.new_slot(st, ct, self.default(st, ct) if is_ctor else self.havoc(st, ct, 'this'))
            fr.this = this
        args = []
        for p in fn['p']:
            t = self.P.ty(p['t'])
            v = self.havoc(st, t, p['n'] or 'arg')
            lv = self.new_slot(st, t, v)
            fr.vars[p['id']] = lv
            fr.names[p['n']] = p['id']
            fr.types[p['id']] = t.s
            args.append(lv)
        self.top_args = args
        st0 = st.copy()
        ctx = Ctx(self, fn, args, this, st0)
        st0.pc = st.pc            # facts assumed while evaluating pre go to the shared list
        if setup:
            setup(self, ctx, st)
        if pre:
            for item in pre(ctx):
                st.assume(item[1] if isinstance(item, tuple) else item)
        # vacuity: the precondition must be satisfiable
        self.obls.append(self.cover('precondition satisfiable', st))
        st.facts = set()
        self.after_seen = set()
        outs = self.run_body(st, fn, args, this)
        if set(self.after) - self.after_seen:
            raise Undecided(f'variables {sorted(set(self.after) - self.after_seen)} not found')
        normal = 0
        self.stats_paths += len(outs)
        for kind, s, v in outs:
            if kind == 'throw':
                goal = z3.BoolVal(False)
                c = Ctx(self, fn, args, this, st0, s, v)
                if throws is not None:
                    goal = throws(c)
                    goal = goal if is_z3(goal) else z3.BoolVal(bool(goal))
                self.oblige(s, f'throws only when permitted', goal, 'throws', fn['line'])
                if throw_post:
                    for n, g in throw_post(c):
                        self.oblige(s, f'on throw: {n}', g, 'post', fn['line'])
                continue
            normal += 1
            c = Ctx(self, fn, args, this, st0, s, v)
            if post:
                st0.pc = s.pc
                for item in post(c):
                    n, g = item[0], item[1]
                    self.oblige(s, f'postcondition: {n}', g, 'post', fn['line'])
                    if len(item) > 2 and self.obls:
                        self.obls[-1].hints = item[2]
        if normal:
            rets = [s for k, s, v in outs if k != 'throw']
            self.obls.append(self.cover('some normal return reachable', *rets))
        return outs

    def cover(self, name, *sts):
        o = ObligationRec(self.target, name, 'cover', None, None, None)
        o.hyps = [list(self.axioms) + list(s.pc) for s in sts]
        return o

    def run_body(self, st, fn, args, this):
        res = []
        states = [st]
        if fn.get('ctor'):
            states = self.ctor_inits(st, fn, this)
        for s in states:
            for k, s2, v in self.ex(s, fn['b']):
                if k in ('normal', 'return'):
                    res.append(('return', s2, v))
                elif k == 'throw':
                    res.append(('throw', s2, v))
                else:
                    raise Undecided('stray ' + k)
        return res

    def ctor_inits(self, st, fn, this):
        states = [st]
        ct = self.P.ty(fn['cls'])
        done = set()
        for init in fn.get('inits', []):
            nxt = []
            for s in states:
                if 'f' in init:
                    done.add(init['f'])
                    ft = dict(ct.fields())[init['f']]
                    for s2, v in self.ev_init(s, init['e'], ft):
                        self.write(s2, this.ext(('f', init['f'])), v)
                        nxt.append(s2)
                elif 'base' in init:
                    bt = self.P.ty(init['base'])
                    if bt.is_struct and bt.fields():
                        for s2, v in self.ev(s, init['e']):
                            v = self.rv(s2, v)
                            for n in v.f:
                                self.write(s2, this.ext(('f', n)), v.f[n])
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                elif init.get('deleg'):
                    for s2, v in self.ev(s, init['e']):
                        self.write(s2, this, self.rv(s2, v))
                        nxt.append(s2)
            states = nxt
        return states

    def ev_init(self, st, e, ty):
        """initialise an object of type ty from e; a reference type binds"""
        if ty is not None and ty.k == 'ref':
            return [(s, v) for s, v in self.ev(st, e)]
        return [(s, self.rv(s, v)) for s, v in self.ev(st, e)]

    # ------------------------------------------------------------ statements
    def ex(self, st, n):
        """-> [(kind, state, value)], kind in normal/return/break/cont/throw"""
        if n is None:
            return [('normal', st, None)]
        k = n['k']
        m = getattr(self, 'ex_' + k, None)
        if m is None:
            raise Undecided(f'statement {k} {n.get("c", "")} line {n.get("l")}')
        return m(st, n)

    def seq(self, st, nodes):
        outs = [('normal', st, None)]
        for n in nodes:
            nxt = []
            for k, s, v in outs:
                if k != 'normal':
                    nxt.append((k, s, v))
                else:
                    nxt += self.ex(s, n)
            outs = nxt
            if len(outs) > 3000:
                raise Undecided('too many paths')
        return outs

    def ex_block(self, st, n):
        return self.seq(st, n['b'])

    def ex_null(self, st, n):
        return [('normal', st, None)]

    def ex_omp(self, st, n):
        return self.ex(st, n['b'])

    def ex_expr(self, st, n):
        return self.wrap_throw(lambda: self.ev(st, n['e']), lambda s, v: [('normal', s, None)])

    def wrap_throw(self, f, g):
        out = []
        for s, v in f():
            if isinstance(v, Thrown):
                out.append(('throw', s, v))
            else:
                out += g(s, v)
        return out

    def ex_decl(self, st, n):
        outs = [('normal', st, None)]
        for d in n['d']:
            nxt = []
            for k, s, v in outs:
                if k != 'normal':
                    nxt.append((k, s, v))
                    continue
                nxt += self.declare(s, d)
            outs = nxt
        return outs

    def declare(self, st, d):
        t = self.P.ty(d['t'])

        def bind(s, v):
            fr = s.frames[-1]
            if t.k == 'ref':
                if isinstance(v, LV):
                    lv = v
                else:
                    lv = self.new_slot(s, t, v)
            else:
                v = self.rv(s, v)
                v = self.retype(v, t)
                lv = self.new_slot(s, t, v)
            fr.vars[d['id']] = lv
            fr.names[d['n']] = d['id']
            fr.types[d['id']] = t.deref().s
            h = self.after.get(d['n'])
            if h is not None and self.dry is None and fr.fn and fr.fn.get('id') == self.target_id:
                self.after_seen.add(d['n'])

                def view(name):
                    if name not in fr.names:
                        raise Undecided(f'variable {name} not found')
                    return self.rv(s, fr.vars[fr.names[name]])
                h(s, view)
            return [('normal', s, None)]

        if d.get('static') and not d.get('const'):
            raise Undecided('static local variable')
        if 'i' in d and d['i'] is not None:
            return self.wrap_throw(lambda: self.ev(st, d['i'], t), bind)
        v = self.uninit(st, t)
        return bind(st, v)

    def uninit(self, st, t):
        if self.S.scalar(t) is not None:
            return self.havoc(st, t, 'uninit')
        return self.default(st, t)

    def retype(self, v, t):
        """give a generic value (e.g. an Eigen expression) its declared type"""
        if isinstance(v, FM) and t.is_mat:
            if t.mshape[0] > 0 and t.mshape[1] > 0:
                return FM(v.e, t)
            sc = self.S.scalar(t.args[0])
            arr = self.fresh('dm', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), sc)))
            for i in range(v.r):
                row = z3.Select(arr, i)
                for j in range(v.c):
                    row = z3.Store(row, j, v.e[i][j])
                arr = z3.Store(arr, i, row)
            return DM(z3.IntVal(v.r), z3.IntVal(v.c), arr, t)
        if isinstance(v, DM) and t.is_mat:
            r, c = t.mshape
            n, m = z3.simplify(v.rows), z3.simplify(v.cols)
            if r > 0 and c > 0:
                if z3.is_int_value(n) and z3.is_int_value(m):
                    if (n.as_long(), m.as_long()) == (r, c):
                        return FM([[z3.simplify(z3.Select(z3.Select(v.arr, i), j)) for j in range(c)] for i in range(r)], t)
                    if (m.as_long(), n.as_long()) == (r, c) and 1 in (r, c):
                        return FM([[z3.simplify(z3.Select(z3.Select(v.arr, j), i)) for j in range(c)] for i in range(r)], t)
                raise Undecided('dynamic matrix as a fixed one')
            if c == 1 and z3.is_int_value(n) and n.as_long() == 1 and not z3.is_int_value(m):
                i = z3.Int('i')      # Eigen copies a row into a column by transposing it
                arr = self.fresh('col', v.arr.sort())
                el = z3.Select(z3.Select(arr, i), z3.IntVal(0))
                self.axioms.append(FA([i], el == z3.Select(z3.Select(v.arr, z3.IntVal(0)), i), el))
                return DM(v.cols, z3.IntVal(1), arr, t)
            return DM(v.rows, v.cols, v.arr, t)
        return v

    def as_dynamic(self, v, like):
        return self.retype(v, like.ty) if like.ty is not None else v

    def getcol(self, v, k):
        i = z3.Int('i')
        arr = self.fresh('col', v.arr.sort())
        el = z3.Select(z3.Select(arr, i), z3.IntVal(0))
        self.axioms.append(FA([i], el == z3.Select(z3.Select(v.arr, i), k), el))
        return DM(v.rows, z3.IntVal(1), arr)

    def ex_if(self, st, n):
        states = [st]
        outs0 = []
        for key in ('init', 'cv'):
            if n.get(key):
                nxt = []
                for s in states:
                    for k, s2, v in self.ex(s, n[key]):
                        if k == 'normal':
                            nxt.append(s2)
                        else:
                            outs0.append((k, s2, v))
                states = nxt
        outs = list(outs0)
        for s0 in states:
            for s, c in self.ev(s0, n['c']):
                if isinstance(c, Thrown):
                    outs.append(('throw', s, c))
                    continue
                c = self.tobool(self.rv(s, c))
                outs += self.branch(s, c, lambda s2: self.ex(s2, n['a']), lambda s2: self.ex(s2, n.get('b')))
        return outs

    def branch(self, st, c, ft, ff):
        c = z3.simplify(c)
        if z3.is_true(c):
            return ft(st)
        if z3.is_false(c):
            return ff(st)
        if self.dry is not None:
            a = ft(st.copy())
            b = ff(st.copy())
            return self.dry_join(a + b)
        outs = []
        s1 = st.copy()
        s2 = st.copy()
        t_ok = not (self.prune and self.quick(st, z3.Not(c)))
        f_ok = True
        if t_ok:
            f_ok = not (self.prune and self.quick(st, c))
        oa, ob = [], []
        if t_ok:
            s1.assume(c)
            oa = ft(s1)
        if f_ok:
            s2.assume(z3.Not(c))
            ob = ff(s2)
        if self.merge and t_ok and f_ok:
            m = self.try_merge(st, c, oa, ob)
            if m is not None:
                return m
        return oa + ob

    def try_merge(self, st, c, oa, ob):
        na = [o for o in oa if o[0] == 'normal']
        nb = [o for o in ob if o[0] == 'normal']
        if len(na) != 1 or len(nb) != 1:
            return None
        sa, sb = na[0][1], nb[0][1]
        base = len(st.pc)
        if sa.pc[:base] != st.pc and [x.get_id() for x in sa.pc[:base]] != [x.get_id() for x in st.pc]:
            return None
        m = st.copy()
        self.merge_facts = []
        try:
            for sid in set(sa.slots) | set(sb.slots):
                if sid in sa.slots and sid in sb.slots:
                    m.slots[sid] = self.merge_val(c, sa.slots[sid], sb.slots[sid])
                    m.stypes[sid] = sa.stypes[sid]
                else:
                    src = sa if sid in sa.slots else sb
                    m.slots[sid] = src.slots[sid]
                    m.stypes[sid] = src.stypes[sid]
        except Undecided:
            return None
        for k in set(sa.ghost) | set(sb.ghost):
            if k in sa.ghost and k in sb.ghost:
                try:
                    m.ghost[k] = self.merge_val(c, sa.ghost[k], sb.ghost[k])
                except Undecided:
                    return None
        for f in self.merge_facts:
            m.assume(f)
        for f in sa.pc[base:]:
            if not f.eq(c):
                m.assume(z3.Implies(c, f))
        for f in sb.pc[base:]:
            if not f.eq(z3.Not(c)):
                m.assume(z3.Implies(z3.Not(c), f))
        return [o for o in oa if o[0] != 'normal'] + [o for o in ob if o[0] != 'normal'] + [('normal', m, None)]

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if is_z3(a) and is_z3(b):
            if a.eq(b):
                return a
            if z3.is_array(a):
                n = self.fresh('m', a.sort())
                self.merge_facts.append(n == z3.If(c, a, b))
                return n
            return z3.If(c, a, b)
        if isinstance(a, VV) and isinstance(b, VV):
            return VV(a.ty, self.merge_val(c, a.len, b.len), self.merge_val(c, a.arr, b.arr))
        if isinstance(a, SV) and isinstance(b, SV) and a.f.keys() == b.f.keys():
            return SV(a.ty, {k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, MV) and isinstance(b, MV):
            return MV(a.ty, self.merge_val(c, a.dom, b.dom), self.merge_val(c, a.val, b.val), self.merge_val(c, a.size, b.size))
        if isinstance(a, FM) and isinstance(b, FM) and a.r == b.r and a.c == b.c:
            return FM([[self.merge_val(c, x, y) for x, y in zip(p, q)] for p, q in zip(a.e, b.e)], a.ty)
        if isinstance(a, DM) and isinstance(b, DM):
            return DM(self.merge_val(c, a.rows, b.rows), self.merge_val(c, a.cols, b.cols), self.merge_val(c, a.arr, b.arr), a.ty)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv == b.lv:
            return a
        if isinstance(a, Iter) and isinstance(b, Iter) and a.lv == b.lv and a.kind == b.kind == 'vec':
            return Iter(a.lv, self.merge_val(c, a.idx, b.idx))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        raise Undecided('merge')

    def dry_join(self, outs):
        """during write-set collection keep one representative per outcome kind"""
        seen = {}
        for o in outs:
            seen.setdefault(o[0], o)
        return list(seen.values())

    def ex_ret(self, st, n):
        if n.get('e') is None:
            return [('return', st, None)]
        rty = getattr(self, 'cur_ret', None)

        fn = st.frames[-1].fn
        rt = self.P.ty(fn['r']) if fn and 'r' in fn else None

        def g(s, v):
            if rt is not None and rt.k != 'ref':
                v = self.rv(s, v)
                v = self.retype(v, rt)
            return [('return', s, v)]

        return self.wrap_throw(lambda: self.ev(st, n['e'], rt), g)

    def ex_break(self, st, n):
        return [('break', st, None)]

    def ex_cont(self, st, n):
        return [('cont', st, None)]

    def ex_switch(self, st, n):
        outs = []
        # flatten the body into labelled segments
        items = []

        def flat(x):
            if x['k'] == 'block':
                for y in x['b']:
                    flat(y)
            elif x['k'] == 'case':
                items.append(('case', x['v']))
                flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default', None))
                flat(x['s'])
            else:
                items.append(('stmt', x))

        flat(n['b'])
        for s, c in self.ev(st, n['c']):
            c = self.rv(s, c)
            conds = []
            for i, (kind, x) in enumerate(items):
                if kind == 'case':
                    (s_, v), = self.ev(s, x)
                    conds.append((i, c == self.conv_like(self.rv(s, v), c)))
            none = z3.And([z3.Not(q) for _, q in conds]) if conds else z3.BoolVal(True)
            default = [i for i, (kind, _) in enumerate(items) if kind == 'default']
            entries = conds + ([(default[0], none)] if default else [(len(items), none)])
            for i, q in entries:
                if self.dry is None and self.prune and self.quick(s, z3.Not(q)):
                    continue
                s2 = s.copy()
                s2.assume(q)
                body = [x for kind, x in items[i:] if kind == 'stmt']
                for k, s3, v in self.seq(s2, body):
                    outs.append(('normal' if k == 'break' else k, s3, v))
        return outs

    def conv_like(self, v, c):
        return v

    def ex_try(self, st, n):
        outs = []
        for k, s, v in self.ex(st, n['b']):
            if k == 'throw':
                for h in n['h'][:1]:
                    if 'v' in h and h['v']:
                        fr = s.frames[-1]
                        fr.vars[h['v']['id']] = self.new_slot(s, self.P.ty(h['v']['t']), Opaque('exception'))
                        fr.names[h['v']['n']] = h['v']['id']
                    outs += self.ex(s, h['b'])
            else:
                outs.append((k, s, v))
        return outs

    # ------------------------------------------------------------ loops
    def ex_for(self, st, n):
        outs = []
        inits = [('normal', st, None)] if not n.get('init') else self.ex(st, n['init'])
        for k, s, v in inits:
            if k != 'normal':
                outs.append((k, s, v))
            else:
                outs += self.loop(s, n, n.get('c'), n.get('inc'), n['b'])
        return outs

    def ex_while(self, st, n):
        return self.loop(st, n, n['c'], None, n['b'])

    def ex_do(self, st, n):
        return self.loop(st, n, n['c'], None, n['b'], post_test=True)

    def ex_rfor(self, st, n):
        outs = []
        for s, r in self.ev(st, n['r']):
            if isinstance(r, Thrown):
                outs.append(('throw', s, r))
                continue
            rt = self.P.ty(n['r']['t'])
            if not isinstance(r, LV):
                r = self.new_slot(s, rt, r)
            v = self.read(s, r)
            if isinstance(v, MV):
                outs += self.map_rfor(s, n, r, v)
                continue
            if not isinstance(v, VV):
                raise Undecided(f'range-for over {type(v).__name__} line {n.get("l")}')
            self.sid += 1
            hid = LV(self.sid)
            s.slots[hid.sid] = self.IV(0)
            s.stypes[hid.sid] = SIZE_T
            outs += self.loop(s, n, ('rfor', r, hid), ('rinc', hid), n['b'], hidden=hid, rvar=n['v'], rng=r)
        return outs

    def map_rfor(self, st, n, r, v):
        self.map_order(st, v)
        self.sid += 1
        hid = LV(self.sid)
        st.slots[hid.sid] = self.IV(0)
        st.stypes[hid.sid] = SIZE_T
        return self.loop(st, n, ('rfor', r, hid), ('rinc', hid), n['b'], hidden=hid, rvar=n['v'], rng=r)

    def map_order(self, st, v):
        """(ord, rank): the iteration order of a map or set with this domain; ord(dom)[0..size) enumerates the domain"""
        ks = self.S.sort(v.ty.args[0])
        dom = v.dom
        nm = v.ty.n.split('::')[-1]
        f = self.ufs.setdefault(('ord', nm, str(ks)), z3.Function(f'ord_{nm}_{ks}', dom.sort(), z3.ArraySort(z3.IntSort(), ks)))
        g = self.ufs.setdefault(('rank', nm, str(ks)), z3.Function(f'rank_{nm}_{ks}', dom.sort(), ks, z3.IntSort()))
        i, j, k = z3.Int('oi'), z3.Int('oj'), z3.Const('ok', ks)
        o = f(dom)
        st.assume(FA([i], z3.Implies(z3.And(0 <= i, i < v.size), z3.And(z3.Select(dom, z3.Select(o, i)), g(dom, z3.Select(o, i)) == i)), z3.Select(o, i)))
        st.assume(FA([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= g(dom, k), g(dom, k) < v.size, z3.Select(o, g(dom, k)) == k)),
                     z3.Select(dom, k)))
        if v.ty.n in ('std::map', 'std::set') and ks in (z3.IntSort(), z3.RealSort()):
            st.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.size), z3.Select(o, i) < z3.Select(o, j)),
                         (z3.Select(o, i), z3.Select(o, j))))
        return o, g

    def loop_cond(self, st, cond):
        if cond is None:
            return [(st, z3.BoolVal(True))]
        if isinstance(cond, tuple) and cond[0] == 'rfor':
            v = self.read(st, cond[1])
            return [(st, self.lt(self.read(st, cond[2]), v.size if isinstance(v, MV) else v.len))]
        out = []
        for s, c in self.ev(st, cond):
            out.append((s, c if isinstance(c, Thrown) else self.tobool(self.rv(s, c))))
        return out

    def lt(self, a, b):
        return z3.ULT(a, b) if z3.is_bv(a) else a < b

    def loop_body(self, st, body, rvar, rng, hidden):
        if rvar is not None:
            t = self.P.ty(rvar['t'])
            fr = st.frames[-1]
            mv = self.read(st, rng)
            if isinstance(mv, MV):
                o, g = self.map_order(st, mv)
                key = self.named(st, z3.Select(o, self.read(st, hidden)))
                st.assume(z3.Select(mv.dom, key))
                fr.types[rvar['id']] = t.deref().s
                fr.names[rvar['n']] = rvar['id']
                if mv.ty.is_set:
                    fr.vars[rvar['id']] = self.new_slot(st, t, self.S.unpack(mv.ty.args[0], key))
                else:
                    it = Iter(rng, kind='map', key=key, found=z3.BoolVal(True))
                    fr.vars[rvar['id']] = ('mapelem', it) if t.k == 'ref' else self.new_slot(st, t, SV(t, dict(stdlib.mapelem_value(self, st, ('mapelem', it)).f)))
                return self.ex(st, body)
            elem = rng.ext(('i', self.read(st, hidden)))
            if t.k == 'ref':
                lv = elem
            else:
                lv = self.new_slot(st, t, self.read(st, elem))
            fr.vars[rvar['id']] = lv
            fr.names[rvar['n']] = rvar['id']
            fr.types[rvar['id']] = t.deref().s
        return self.ex(st, body)

    def loop_inc(self, st, inc):
        if inc is None:
            return [st]
        if isinstance(inc, tuple):
            self.write(st, inc[1], self.read(st, inc[1]) + 1)
            return [st]
        return [s for s, v in self.ev(st, inc)]

    def loop(self, st, node, cond, inc, body, post_test=False, hidden=None, rvar=None, rng=None):
        if self.dry is not None:
            return self.loop_dry(st, cond, inc, body, post_test, hidden, rvar, rng)
        key = (st.frames[-1].chain, id(node))
        if key not in self.loop_ids:
            self.loop_ids[key] = len(self.loop_ids)
        idx = self.loop_ids[key]
        spec = self.loop_specs[idx] if idx < len(self.loop_specs) else None
        if spec is None or spec == 'unroll':
            return self.loop_unroll(st, node, cond, inc, body, post_test, hidden, rvar, rng)
        line = node.get('l')
        # 1. write set
        W = self.write_set(st, cond, inc, body, hidden, rvar, rng)
        entry = st.copy()
        nfr = len(st.frames)

        def invs(s):
            ctx = LoopCtx(self, s, entry, nfr, self.target, hidden)
            return spec.inv(ctx)

        outs = []
        if post_test:
            raise Undecided('do-while with an invariant')
        s_in = st.copy()
        if spec.setup:
            spec.setup(LoopCtx(self, s_in, entry, nfr, self.target, hidden))
        for nm, f in invs(s_in):
            self.oblige(s_in, f'loop {idx} invariant holds initially: {nm}', f, 'inv-init', line)
        # 2. arbitrary iteration
        h = st.copy()
        h.ghost = dict(s_in.ghost)
        for lv in W:
            ty = self.acc_type(h, lv)
            cur = self.read(h, lv)
            h_val = self.havoc_like(h, ty, cur)
            h.slots[lv.sid] = self.upd(h, h.slots[lv.sid], lv.acc, h_val)
        for g in spec.ghosts:
            h.ghost[g] = self.havoc_like(h, None, h.ghost[g])
        for nm, f in invs(h):
            h.assume(f)
        h.facts = set()
        measure0 = None
        # cond
        for s, c in self.loop_cond(h, cond):
            if isinstance(c, Thrown):
                outs.append(('throw', s, c))
                continue
            # exit
            if not z3.is_true(z3.simplify(c)):
                sx = s.copy()
                sx.assume(z3.Not(c))
                if not self.quick(s, c):
                    outs.append(('normal', sx, None))
            sb = s.copy()
            sb.assume(c)
            if self.quick(s, z3.Not(c)):
                continue
            m0 = None
            if spec.decreases:
                m0 = spec.decreases(LoopCtx(self, sb, entry, nfr, self.target, hidden))
            if spec.on_body:
                spec.on_body(LoopCtx(self, sb, entry, nfr, self.target, hidden))
            pre_body = sb.copy()
            for k, s2, v in self.loop_body(sb, body, rvar, rng, hidden):
                if k in ('normal', 'cont'):
                    for s3 in self.loop_inc(s2, inc):
                        ctx3 = LoopCtx(self, s3, entry, nfr, self.target, hidden)
                        ctx3.prev = LoopCtx(self, pre_body, entry, nfr, self.target, hidden)
                        if spec.on_step:
                            spec.on_step(ctx3)
                        for nm, f in spec.inv(ctx3):
                            self.oblige(s3, f'loop {idx} invariant preserved: {nm}', f, 'inv-step', line)
                        if m0 is not None:
                            m1 = spec.decreases(ctx3)
                            if not isinstance(m1, (tuple, list)):
                                m1 = (m1,)
                            if not isinstance(m0, (tuple, list)):
                                m0 = (m0,)
                            lex = z3.BoolVal(False)
                            for x, y in reversed(list(zip(m0, m1))):
                                lex = z3.Or(y < x, z3.And(y == x, lex))
                            self.oblige(s3, f'loop {idx} terminates', z3.And(*[x >= 0 for x in m0], lex), 'decreases', line)
                elif k == 'break':
                    outs.append(('normal', s2, None))
                else:
                    outs.append((k, s2, v))
        for k, s, v in outs:
            if k == 'normal' and spec.on_exit:
                spec.on_exit(LoopCtx(self, s, entry, nfr, self.target, hidden))
        return outs

    def havoc_like(self, st, ty, cur):
        if is_z3(cur):
            v = self.fresh('h', cur.sort())
            if ty is not None:
                f = self.range_fact(ty, v)
                if f is not None:
                    st.assume(f)
                if ty.k == 'float' and self.reals == 'real':
                    st.assume(v <= self.INF, v >= -self.INF)
            return v
        if isinstance(cur, Iter):
            if cur.kind in ('vec', 'mapit'):
                i = self.fresh('it', self.S.index())
                st.assume(i >= 0)
                return Iter(cur.lv, i, kind=cur.kind, rev=cur.rev)
            m = self.read(st, cur.lv)
            return Iter(cur.lv, kind='map', key=self.fresh('itk', m.dom.sort().domain()), found=self.fresh('itf', z3.BoolSort()))
        if isinstance(cur, (VV, SV, MV, FM, DM)):
            return self.havoc(st, cur.ty if cur.ty is not None else ty, 'h')
        if isinstance(cur, Opaque):
            return cur
        raise Undecided(f'havoc of {type(cur).__name__}')

    def write_set(self, st, cond, inc, body, hidden, rvar, rng):
        self.dry = []
        mark = self.sid
        try:
            s = st.copy()
            for s1, c in self.loop_cond(s, cond)[:1]:
                for k, s2, v in self.loop_body(s1, body, rvar, rng, hidden):
                    if k in ('normal', 'cont'):
                        self.loop_inc(s2, inc)
                        break
                else:
                    self.loop_inc(s1, inc) if inc is not None else None
            W = [w for w in self.dry if w.sid <= mark]
        finally:
            self.dry = None
        # cut every lvalue at its first dynamic accessor, drop duplicates and covered ones
        cut = []
        for w in W:
            acc = []
            for a in w.acc:
                if a[0] != 'f':
                    break
                acc.append(a)
            w2 = LV(w.sid, acc)
            if w2 not in cut:
                cut.append(w2)
        out = []
        for w in cut:
            if not any(o is not w and o.sid == w.sid and len(o.acc) < len(w.acc) and list(o.acc) == list(w.acc[:len(o.acc)]) for o in cut):
                out.append(w)
        return out

    def loop_dry(self, st, cond, inc, body, post_test, hidden, rvar, rng):
        outs = [('normal', st, None)]
        s = st.copy()
        for s1, c in self.loop_cond(s, cond)[:1]:
            if isinstance(c, Thrown):
                continue
            for k, s2, v in self.dry_join(self.loop_body(s1, body, rvar, rng, hidden)):
                if k in ('normal', 'cont', 'break'):
                    for s3 in self.loop_inc(s2, inc)[:1]:
                        pass
                else:
                    outs.append((k, s2, v))
        return self.dry_join(outs)

    def loop_unroll(self, st, node, cond, inc, body, post_test, hidden, rvar, rng):
        outs = []
        states = [st]
        first = True
        for it in range(self.unroll + 1):
            nxt = []
            for s in states:
                cs = [(s, z3.BoolVal(True))] if (post_test and first) else self.loop_cond(s, cond)
                for s1, c in cs:
                    if isinstance(c, Thrown):
                        outs.append(('throw', s1, c))
                        continue
                    c = z3.simplify(c)
                    if not z3.is_true(c) and not self.quick(s1, c):
                        sx = s1.copy()
                        sx.assume(z3.Not(c))
                        outs.append(('normal', sx, None))
                    if z3.is_false(c) or self.quick(s1, z3.Not(c)):
                        continue
                    sb = s1.copy()
                    sb.assume(c)
                    for k, s2, v in self.loop_body(sb, body, rvar, rng, hidden):
                        if k in ('normal', 'cont'):
                            nxt += self.loop_inc(s2, inc)
                        elif k == 'break':
                            outs.append(('normal', s2, None))
                        else:
                            outs.append((k, s2, v))
            first = False
            states = nxt
            if not states:
                return outs
        raise Undecided(f'loop without invariant at line {node.get("l")} in {self.target}')

    # ------------------------------------------------------------ expressions
    def rv(self, st, v):
        if isinstance(v, LV):
            return self.read(st, v)
        return v

    def tobool(self, v):
        if isinstance(v, (int, bool)):
            return z3.BoolVal(bool(v))
        if z3.is_bool(v):
            return v
        if isinstance(v, Ptr):
            return z3.BoolVal(v.lv is not None)
        if z3.is_fp(v):
            return z3.Not(z3.fpIsZero(v))
        if is_z3(v):
            return v != 0
        if isinstance(v, (UFun, Clo)):
            return z3.BoolVal(True)
        raise Undecided(f'condition of {type(v).__name__}')

    def ev(self, st, e, want=None):
        """-> [(state, value)]; lvalue expressions yield LV"""
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Undecided(f'expression {k} {e.get("c", "")} line {e.get("l")}')
        r = m(st, e)
        return r

    def ev1(self, st, e):
        """evaluate to an rvalue"""
        return [(s, v if isinstance(v, Thrown) else self.rv(s, v)) for s, v in self.ev(st, e)]

    def evs(self, st, es, rvals=False):
        """evaluate a list left to right -> [(state, [values])]; Thrown aborts"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                if vs and isinstance(vs[-1], Thrown):
                    nxt.append((s, vs))
                    continue
                for s2, v in (self.ev1(s, e) if rvals else self.ev(s, e)):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def ev_int(self, st, e):
        t = self.ty(e)
        if t.k == 'float':
            return [(st, self.fval(float(e['v']), t))]
        return [(st, self.IV(int(e['v']), t))]

    def ev_bool(self, st, e):
        return [(st, z3.BoolVal(e['v'] not in ('0', 'false')))]

    def ev_flt(self, st, e):
        x = e['v']
        f = {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}.get(x)
        if f is None:
            f = float.fromhex(x)
        return [(st, self.fval(f, self.ty(e)))]

    def ev_str(self, st, e):
        t = self.ty(e)
        b = e['b']
        if not t.is_vec:
            return [(st, Opaque('str'))]
        et = t.velem
        arr = z3.K(self.S.index(), self.IV(0, et))
        for i, c in enumerate(b):
            if c >= 128 and et.sg:
                c -= 256
            arr = z3.Store(arr, self.IV(i), self.IV(c, et))
        return [(st, self.new_slot(st, t, VV(t, self.IV(len(b) + 1), arr)))]

    def ev_null(self, st, e):
        return [(st, Ptr(None))]

    def ev_this(self, st, e):
        th = st.frames[-1].this
        return [(st, Ptr(th))]

    def ev_var(self, st, e):
        for fr in reversed(st.frames[-1:]):
            if e['id'] in fr.vars:
                v = fr.vars[e['id']]
                return [(st, v)]
        if e.get('g'):
            return [(st, self.global_lv(st, e['id']))]
        raise Undecided(f'variable {e["n"]} not in scope')

    def global_lv(self, st, gid):
        key = ('g', gid)
        if key in st.ghost:
            return st.ghost[key]
        g = self.P.globals.get(gid)
        if g is None:
            raise Undecided('unknown global')
        t = self.P.ty(g['t'])
        if g.get('const') and 'init' in g and g['init']:
            v = self.const_table(st, g, t)
            if v is None:
                (s2, v), = self.ev(st, g['init'])
                v = self.rv(s2, v)
        elif 'ostream' in t.s or 'istream' in t.s:
            v = Opaque('stream')
        else:
            raise Undecided(f'mutable global {g["n"]}')
        lv = self.new_slot(st, t, v)
        st.ghost[key] = lv
        return lv

    def const_table(self, st, g, t):
        """a constant array of integers: an uninterpreted array constant with one ground fact per entry"""
        vals = find_ints(g['init'])
        if vals is None or not t.is_vec or len(vals) < 9:
            return None
        want = t.raw.get('n') if t.k == 'arr' else t.args[1] if t.n == 'std::array' else None
        if want and len(vals) < want:
            vals = vals + [0] * (want - len(vals))
        name = 'tbl_' + g['n']
        runs = []
        for i, x in enumerate(vals):
            if runs and x - vals[i - 1] == runs[-1][2] and i - 1 >= runs[-1][0]:
                continue
            # start a run: slope 1 if the next value follows, else 0
            sl = vals[i + 1] - x if i + 1 < len(vals) and vals[i + 1] - x in (0, 1) else 0
            runs.append((i, x, sl))
        if len(runs) <= 24 and self.ints == 'int':
            self.ladders[name] = runs
        arr = z3.Const(name, z3.ArraySort(self.S.index(), self.S.sort(t.velem)))
        if name not in self.tables:
            self.tables[name] = vals
            for i, v in enumerate(vals):
                self.axioms.append(z3.Select(arr, self.IV(i)) == self.IV(v, t.velem))
        return VV(t, self.IV(len(vals)), arr)

    def ladder(self, name, i, et):
        """piecewise linear form of a constant table, computed from its current initialiser"""
        r = None
        for start, x, sl in reversed(self.ladders[name]):
            t = z3.IntVal(x) + (i - start if sl else 0)
            r = t if r is None else z3.If(i < self.next_start(name, start), t, r)
        return z3.simplify(r)

    def next_start(self, name, start):
        return min(s for s, _, _ in self.ladders[name] if s > start)

    def ev_field(self, st, e):
        out = []
        for s, b in self.ev(st, e['b']):
            if isinstance(b, Thrown):
                out.append((s, b))
                continue
            if e.get('arrow'):
                b = self.rv(s, b)
                if not (isinstance(b, tuple) and b[0] == 'mapelem'):
                    b = self.star(s, b)
            if isinstance(b, tuple) and b[0] == 'mapelem':
                it = b[1]
                if e['f'] == 'first':
                    out.append((s, self.S.unpack(self.acc_type(s, it.lv).args[0], it.key)))
                else:
                    out.append((s, it.lv.ext(('k', it.key))))
                continue
            if isinstance(b, stdlib.PairVal):
                out.append((s, b.f[e['f']]))
                continue
            if isinstance(b, LV):
                cur = None
                t = self.acc_type(s, b)
                if t is not None and t.is_struct:
                    v = self.read(s, b.ext(('f', e['f'])))
                    if isinstance(v, LV):       # reference member
                        out.append((s, v))
                        continue
                out.append((s, b.ext(('f', e['f']))))
            elif isinstance(b, SV):
                out.append((s, b.f[e['f']]))
            else:
                raise Undecided(f'field of {type(b).__name__}')
        return out

    def star(self, st, p):
        """dereference pointer or iterator to an lvalue (or value)"""
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige(st, 'null pointer dereference', z3.BoolVal(False), 'bounds')
                raise Undecided('null dereference')
            lv = p.lv
            if lv.acc and lv.acc[-1][0] == 'i':
                base = self.read(st, LV(lv.sid, lv.acc[:-1]))
                self.bounds(st, lv.acc[-1][1], base.len, 'pointer dereference')
            return lv
        if isinstance(p, Iter):
            if p.kind == 'vec':
                v = self.read(st, p.lv)
                i = p.idx if not p.rev else v.len - 1 - p.idx
                self.bounds(st, i, v.len, 'iterator dereference')
                return p.lv.ext(('i', i))
            v = self.read(st, p.lv)
            if p.kind == 'mapit':
                self.oblige(st, 'map iterator dereference', z3.And(p.idx >= 0, p.idx < v.size), 'bounds')
                o, g = self.map_order(st, v)
                key = self.named(st, z3.Select(o, p.idx))
                st.assume(z3.Select(v.dom, key))
                if v.ty.is_set:
                    return self.new_slot(st, None, self.S.unpack(v.ty.args[0], key))
                return ('mapelem', Iter(p.lv, kind='map', key=key, found=z3.BoolVal(True)))
            self.oblige(st, 'map iterator dereference', p.found, 'bounds')
            return ('mapelem', p)
        if isinstance(p, LV):
            return p
        raise Undecided(f'dereference of {type(p).__name__}')

    def bounds(self, st, i, ln, what, line=None):
        if z3.is_bv(i):
            if i.size() != 64:
                i = z3.SignExt(64 - i.size(), i)
            g = z3.ULT(i, ln)
        else:
            g = z3.And(i >= 0, i < ln)
        self.oblige(st, f'{what} in bounds', g, 'bounds', line)

    def ev_mat(self, st, e):
        return self.ev(st, e['e'])

    def ev_stdil(self, st, e):
        return self.ev(st, e['e'])

    def ev_stmtexpr(self, st, e):
        out = []
        for k, s, v in self.ex(st, e['s']):
            if k == 'normal':
                out.append((s, v))
            elif k == 'throw':
                out.append((s, v))
            else:
                raise Undecided('control flow in statement expression')
        return out

    def ev_zero(self, st, e):
        return [(st, self.default(st, self.ty(e)))]

    def ev_init(self_, st, e, ty=None):
        self = self_
        if ty is not None or e.get('k') != 'init':
            return Engine._ev_init(self, st, e, ty)
        t = self.ty(e)
        out = []
        for s, vs in self.evs(st, e['a'], rvals=True):
            if vs and isinstance(vs[-1], Thrown):
                out.append((s, vs[-1]))
                continue
            if t.is_vec:
                n = len(vs)
                if t.n == 'std::array' and n == 1 and isinstance(vs[0], VV):
                    out.append((s, VV(t, vs[0].len, vs[0].arr)))
                    continue
                et = t.velem
                arr = self.fresh('il', z3.ArraySort(self.S.index(), self.S.sort(et)))
                if e.get('filler'):
                    arr = z3.K(self.S.index(), self.S.pack(et, self.default(s, et)))
                    n = t.raw.get('n', n)
                for i, v in enumerate(vs):
                    arr = z3.Store(arr, self.IV(i), self.S.pack(et, v))
                out.append((s, VV(t, self.IV(n), arr)))
            elif t.is_struct:
                fs = t.fields()
                f = {}
                for i, (n, ft) in enumerate(fs):
                    f[n] = vs[i] if i < len(vs) else self.default(s, ft)
                out.append((s, SV(t, f)))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            elif not vs:
                out.append((s, self.default(s, t)))
            else:
                raise Undecided(f'init list for {t}')
        return out

    def _ev_init(self, st, e, ty):
        if ty is not None and ty.k == 'ref':
            return [(s, v) for s, v in self.ev(st, e)]
        return [(s, self.rv(s, v)) for s, v in self.ev(st, e)]

    def ev_cond(self, st, e):
        out = []
        for s, c in self.ev1(st, e['c']):
            if isinstance(c, Thrown):
                out.append((s, c))
                continue
            c = z3.simplify(self.tobool(c))
            if is_void_assert(e):
                # assert(): the failing arm calls __assert_fail
                out += self.do_assert(s, c, e)
                continue
            if z3.is_true(c):
                out += self.ev(s, e['a'])
                continue
            if z3.is_false(c):
                out += self.ev(s, e['b'])
                continue
            s1, s2 = s.copy(), s.copy()
            s1.assume(c)
            s2.assume(z3.Not(c))
            ra, rb = self.ev(s1, e['a']), self.ev(s2, e['b'])
            if len(ra) == 1 and len(rb) == 1 and not isinstance(ra[0][1], Thrown) and not isinstance(rb[0][1], Thrown):
                va, vb = ra[0][1], rb[0][1]
                lvs = isinstance(va, LV) and isinstance(vb, LV) and e.get('lv')
                va, vb = self.rv(ra[0][0], va), self.rv(rb[0][0], vb)
                sa, sb = ra[0][0], rb[0][0]
                if not lvs and self.same_slots(s, sa) and self.same_slots(s, sb):
                    try:
                        self.merge_facts = []
                        mv = self.merge_val(c, va, vb)
                        n = len(s.pc)
                        for f in self.merge_facts:
                            s.assume(f)
                            n += 1
                        for f in sa.pc[n:]:
                            if not f.eq(c):
                                s.assume(z3.Implies(c, f))
                        for f in sb.pc[n:]:
                            if not f.eq(z3.Not(c)):
                                s.assume(z3.Implies(z3.Not(c), f))
                        out.append((s, mv))
                        continue
                    except Undecided:
                        pass
            out += ra + rb
        return out

    def same_slots(self, a, b):
        return all(b.slots.get(k) is v for k, v in a.slots.items())

    def do_assert(self, st, c, e):
        if self.dry is not None:
            return [(st, None)]
        if self.allow_abort is not None:
            # the contract permits (or demands) an abort under a condition on the inputs
            s2 = st.copy()
            s2.assume(z3.Not(c))
            if not self.quick(st, c):
                self.oblige(s2, f'abort only when permitted', self.allow_abort(self, s2), 'assert', e.get('l'))
            st.assume(c)
            return [(st, None)]
        self.oblige(st, 'assertion holds', c, 'assert', e.get('l'))
        st.assume(c)
        return [(st, None)]

    def ev_throw(self, st, e):
        return [(st, Thrown('throw'))]

    def ev_lambda(self, st, e):
        fr = st.frames[-1]
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
            elif 'id' in c:
                if c.get('init'):
                    (s2, v), = self.ev(st, c['init'])
                    st = s2
                    caps[c['id']] = (c['n'], self.new_slot(st, SIZE_T, self.rv(st, v)))
                    continue
                if c['id'] not in fr.vars:
                    continue
                lv = fr.vars[c['id']]
                if not c['ref'] and not isinstance(self.read(st, lv), (UFun, Clo)):
                    lv = self.new_slot(st, self.acc_type(st, lv), self.read(st, lv))
                caps[c['id']] = (c['n'], lv)
        return [(st, Clo(e.get('fn'), caps, this, node=e))]

    def ev_fnref(self, st, e):
        return [(st, Clo(e['fn'], {}, None, node=e))]

    def ev_new(self, st, e):
        raise Undecided('new expression')

    def ev_unk(self, st, e):
        raise Undecided(f'unsupported expression {e.get("c")} line {e.get("l")}')

    def ev_idx(self, st, e):
        out = []
        for s, (b, i) in self.evs(st, [e['b'], e['i']]):
            if isinstance(i, Thrown) or isinstance(b, Thrown):
                out.append((s, i if isinstance(i, Thrown) else b))
                continue
            i = self.rv(s, i)
            b = self.rv(s, b) if not isinstance(b, LV) or isinstance(self.rv(s, b), (Ptr,)) else b
            if isinstance(b, Ptr):
                lv = b.lv
                if lv is None or not lv.acc or lv.acc[-1][0] != 'i':
                    raise Undecided('indexing a plain pointer')
                base = LV(lv.sid, lv.acc[:-1])
                j = z3.simplify(lv.acc[-1][1] + self.idxconv(i))
                self.bounds(s, j, self.read(s, base).len, 'array access', e.get('l'))
                out.append((s, base.ext(('i', j))))
            elif isinstance(b, LV):
                v = self.read(s, b)
                self.bounds(s, self.idxconv(i), v.len, 'array access', e.get('l'))
                out.append((s, b.ext(('i', self.idxconv(i)))))
            else:
                raise Undecided('array subscript')
        return out

    def idxconv(self, i):
        if z3.is_bv(i) and i.size() != 64:
            return z3.SignExt(64 - i.size(), i)
        return i

    # ---- unary / binary / casts
    def ev_un(self, st, e):
        op = e['op']
        out = []
        for s, v in self.ev(st, e['e']):
            if isinstance(v, Thrown):
                out.append((s, v))
                continue
            if op == '&':
                if not isinstance(v, LV):
                    raise Undecided('address of an rvalue')
                out.append((s, Ptr(v)))
                continue
            if op == '*':
                r = self.star(s, self.rv(s, v))
                out.append((s, r))
                continue
            if op in ('++', '--'):
                old = self.rv(s, v)
                t = self.ty(e['e'])
                d = 1 if op == '++' else -1
                new = self.step(s, old, d, t, e.get('l'))
                self.write(s, v, new)
                out.append((s, old if e['post'] else v))
                continue
            v = self.rv(s, v)
            t = self.ty(e)
            if op == '!':
                out.append((s, z3.Not(self.tobool(v))))
            elif op == '-':
                if isinstance(v, (FM, DM)):
                    out.append((s, stdlib.mat_map(self, lambda x: -x, v)))
                elif t.k == 'float':
                    out.append((s, -v))
                else:
                    out.append((s, self.arith(s, '-', self.IV(0, t), v, t, e.get('l'))))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                if z3.is_bv(v):
                    out.append((s, ~v))
                else:
                    out.append((s, -1 - v if t.sg else (1 << t.w) - 1 - v))
            elif op in ('__extension__',):
                out.append((s, v))
            else:
                raise Undecided('unary ' + op)
        return out

    def step(self, st, old, d, t, line):
        if isinstance(old, Iter):
            return stdlib.iter_step(self, st, old, d)
        if isinstance(old, Ptr):
            return stdlib.ptr_add(self, st, old, self.IV(d))
        if t.k == 'float':
            return old + d
        return self.arith(st, '+' if d > 0 else '-', old, self.IV(1, t), t, line)

    def ev_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            return self.ev_logic(st, e)
        if op == ',':
            out = []
            for s, v in self.ev(st, e['a']):
                if isinstance(v, Thrown):
                    out.append((s, v))
                else:
                    out += self.ev(s, e['b'])
            return out
        out = []
        for s, vs in self.evs(st, [e['a'], e['b']], rvals=True):
            if isinstance(vs[-1], Thrown):
                out.append((s, vs[-1]))
                continue
            a, b = vs
            out.append((s, self.binop(s, op, a, b, self.ty(e['a']), self.ty(e['b']), self.ty(e), e.get('l'))))
        return out

    def ev_logic(self, st, e):
        out = []
        for s, a in self.ev1(st, e['a']):
            if isinstance(a, Thrown):
                out.append((s, a))
                continue
            a = z3.simplify(self.tobool(a))
            isand = e['op'] == '&&'
            if z3.is_true(a) and not isand:
                out.append((s, z3.BoolVal(True)))
                continue
            if z3.is_false(a) and isand:
                out.append((s, z3.BoolVal(False)))
                continue
            g = a if isand else z3.Not(a)
            s1 = s.copy()
            s1.assume(g)
            rb = self.ev1(s1, e['b'])
            if len(rb) == 1 and not isinstance(rb[0][1], Thrown) and self.same_slots(s, rb[0][0]):
                b = self.tobool(rb[0][1])
                n = len(s.pc)
                for f in rb[0][0].pc[n:]:
                    if not f.eq(g):
                        s.assume(z3.Implies(g, f))
                # keep temporaries created by the right side
                for k, v in rb[0][0].slots.items():
                    if k not in s.slots:
                        s.slots[k] = v
                        s.stypes[k] = rb[0][0].stypes[k]
                for k, v in rb[0][0].ghost.items():
                    s.ghost.setdefault(k, v)
                out.append((s, z3.And(a, b) if isand else z3.Or(a, b)))
                continue
            s2 = s.copy()
            s2.assume(z3.Not(g))
            if self.dry is None and not self.quick(s, g):
                out.append((s2, z3.BoolVal(not isand)))
            elif self.dry is not None:
                out.append((s2, z3.BoolVal(not isand)))
            if self.dry is not None or not self.quick(s, z3.Not(g)):
                out += [(s3, b if isinstance(b, Thrown) else self.tobool(b)) for s3, b in rb]
        return out

    CMP = {'<', '<=', '>', '>=', '==', '!='}

    def binop(self, st, op, a, b, ta, tb, tr, line=None):
        if isinstance(a, (Ptr, Iter, stdlib.MatPtr)) or isinstance(b, (Ptr, Iter, stdlib.MatPtr)):
            return stdlib.ptr_bin(self, st, op, a, b)
        if isinstance(a, (Clo, UFun)) or isinstance(b, (Clo, UFun)):
            if op in ('==', '!='):
                return z3.BoolVal(op == '!=')
        if not is_z3(a) or not is_z3(b):
            raise Undecided(f'operator {op} on {type(a).__name__}, {type(b).__name__} line {line}')
        if z3.is_bool(a) and z3.is_bool(b) and op in ('==', '!='):
            return a == b if op == '==' else a != b
        if z3.is_bool(a) and (z3.is_bool(b)) and op in ('&', '|', '^'):
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        if op in self.CMP:
            return self.cmp(op, a, b, ta)
        if tr.k == 'float':
            return self.farith(st, op, a, b, line)
        return self.arith(st, op, a, b, tr, line, ta, tb)

    def cmp(self, op, a, b, t):
        if z3.is_fp(a):
            return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ,
                    '!=': z3.fpNEQ}[op](a, b)
        if z3.is_bool(a):
            a = z3.If(a, self.IV(1, t), self.IV(0, t)) if not z3.is_bv(b) else a
        if z3.is_bool(b):
            b = z3.If(b, self.IV(1, t), self.IV(0, t))
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if z3.is_bv(a) and not t.sg:
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def farith(self, st, op, a, b, line):
        if z3.is_fp(a):
            rm = z3.RNE()
            return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](rm, a, b)
        if self.ext_inf and op in '+-':
            INF = self.INF
            isinf = lambda x: z3.is_const(x) and x.eq(INF)
            if op == '+':
                if z3.is_rational_value(a) or z3.is_rational_value(b):
                    o = b if z3.is_rational_value(a) else a
                    return z3.If(z3.Or(o == INF, a + b >= INF), INF, a + b)
                return z3.If(z3.Or(a == INF, b == INF, a + b >= INF), INF, a + b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            self.oblige(st, 'division by zero', b != 0, 'arith', line)
            return a / b
        raise Undecided('float op ' + op)

    def arith(self, st, op, a, b, t, line, ta=None, tb=None):
        if z3.is_bool(a):
            a = z3.If(a, self.IV(1, t), self.IV(0, t))
        if z3.is_bool(b):
            b = z3.If(b, self.IV(1, t), self.IV(0, t))
        if self.ints == 'bv':
            return self.bvarith(st, op, a, b, t, line)
        if op in '+-*':
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
            return self.fit(st, z3.simplify(r), t, line)
        if op in ('/', '%'):
            self.oblige(st, 'division by zero', b != 0, 'arith', line)
            if self.quick(st, z3.And(a >= 0, b > 0)):
                return a / b if op == '/' else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), -a / -b))
            return q if op == '/' else a - b * q
        if op == '<<':
            bs = z3.simplify(b)
            if z3.is_int_value(bs):
                r = a * (1 << bs.as_long())
                if t.sg:
                    self.oblige(st, 'shift of a non-negative value', a >= 0, 'overflow', line) if not self.quick(st, a >= 0) else None
                return self.fit(st, z3.simplify(r), t, line)
        if op == '>>':
            bs = z3.simplify(b)
            if z3.is_int_value(bs):
                return z3.simplify(a / (1 << bs.as_long()))     # floor division: arithmetic shift
        if op == '&':
            for x, y in ((a, b), (b, a)):
                ys = z3.simplify(y)
                if z3.is_int_value(ys):
                    m = ys.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return x % (m + 1) if m else z3.IntVal(0)
        if op == '|':
            for x, y in ((a, b), (b, a)):
                kk = self.low_bits(st, y)
                if kk is not None and self.quick(st, z3.And(x % (1 << kk) == 0, x >= 0)):
                    return a + b
        if op == '^' or op == '|' or op == '&':
            # general case through bit-vectors
            w = t.w
            A, B = z3.Int2BV(a, w), z3.Int2BV(b, w)
            r = {'^': A ^ B, '|': A | B, '&': A & B}[op]
            return z3.BV2Int(r, is_signed=t.sg)
        raise Undecided(f'integer operator {op} line {line}')

    def low_bits(self, st, y):
        for k in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 18, 24, 32):
            if self.quick(st, z3.And(y >= 0, y < (1 << k))):
                return k
        return None

    def bvarith(self, st, op, a, b, t, line):
        if z3.is_bv(a) and z3.is_bv(b) and a.size() != b.size():
            if op in ('<<', '>>'):
                b = z3.Extract(a.size() - 1, 0, b) if b.size() > a.size() else z3.ZeroExt(a.size() - b.size(), b)
            else:
                raise Undecided('bit-vector widths')
        if op == '+':
            if t.sg and self.overflow:
                self.oblige(st, 'signed overflow', z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), 'overflow', line)
            return a + b
        if op == '-':
            if t.sg and self.overflow:
                self.oblige(st, 'signed overflow', z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'overflow', line)
            return a - b
        if op == '*':
            if t.sg and self.overflow:
                self.oblige(st, 'signed overflow', z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), 'overflow', line)
            return a * b
        if op == '/':
            self.oblige(st, 'division by zero', b != 0, 'arith', line)
            return a / b if t.sg else z3.UDiv(a, b)
        if op == '%':
            self.oblige(st, 'division by zero', b != 0, 'arith', line)
            return z3.SRem(a, b) if t.sg else z3.URem(a, b)
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op in ('<<', '>>'):
            self.oblige(st, 'shift amount in range', z3.ULT(b, a.size()), 'overflow', line)
            if op == '<<':
                return a << b
            return a >> b if t.sg else z3.LShR(a, b)
        raise Undecided('bv operator ' + op)

    def fit(self, st, r, t, line):
        """result of integer arithmetic in type t"""
        lo, hi = self.rng(t)
        if z3.is_int_value(r):
            x = r.as_long()
            if lo <= x <= hi:
                return r
        ok = z3.And(r >= lo, r <= hi)
        if t.sg:
            if self.overflow:
                self.oblige(st, 'signed overflow', ok, 'overflow', line)
            return r
        if self.quick(st, ok):
            return r
        if self.dry is not None:
            return r
        v = self.fresh('wrap', z3.IntSort())
        q = self.fresh('wq', z3.IntSort())
        st.assume(v >= lo, v <= hi, r == v + q * (hi + 1))
        st.assume(z3.Implies(ok, v == r))
        return v

    def ev_asg(self, st, e):
        op = e['op']
        out = []
        if op == '=':
            # right operand first (C++17 order; the sources do not depend on it)
            for s, (b, a) in self.evs(st, [e['b'], e['a']]):
                if isinstance(a, Thrown) or isinstance(b, Thrown):
                    out.append((s, b if isinstance(b, Thrown) else a))
                    continue
                self.write(s, a, self.rv(s, b))
                out.append((s, a))
            return out
        bop = op[:-1]
        for s, vs in self.evs(st, [e['b'], e['a']]):
            if isinstance(vs[-1], Thrown):
                out.append((s, vs[-1]))
                continue
            b, a = vs
            bv = self.rv(s, b)
            av = self.rv(s, a)
            ta, ct, lt_ = self.ty(e['a']), self.P.ty(e['ct']), self.P.ty(e['lt'])
            if isinstance(av, (Iter, Ptr)):
                r = stdlib.ptr_bin(self, s, bop, av, bv)
            elif isinstance(av, VV):
                raise Undecided('compound assignment on a container')
            else:
                av2 = self.convert(s, av, ta, lt_, e.get('l'))
                r = self.binop(s, bop, av2, bv, lt_, self.ty(e['b']), ct, e.get('l'))
                r = self.convert(s, r, ct, ta, e.get('l'))
            self.write(s, a, r)
            out.append((s, a))
        return out

    def ev_cast(self, st, e):
        ck = e['ck']
        out = []
        for s, v in self.ev(st, e['e']):
            if isinstance(v, Thrown):
                out.append((s, v))
                continue
            if ck == 'ToVoid':
                out.append((s, None))
                continue
            if ck in ('LValueToRValue',):
                out.append((s, self.rv(s, v)))
                continue
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                out.append((s, v))
                continue
            if ck == 'ArrayToPointerDecay':
                if isinstance(v, LV):
                    out.append((s, Ptr(v.ext(('i', self.IV(0))))))
                else:
                    out.append((s, v))
                continue
            if ck == 'UserDefinedConversion':
                out.append((s, self.rv(s, v)))
                continue
            v = self.rv(s, v)
            src, dst = self.ty(e['e']), self.ty(e)
            if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean',
                      'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
                if ck == 'PointerToBoolean':
                    out.append((s, self.tobool(v)))
                else:
                    out.append((s, self.convert(s, v, src, dst, e.get('l'))))
            elif ck in ('BitCast', 'NullToPointer', 'Dependent', 'LValueBitCast', 'MemberPointerToBoolean'):
                out.append((s, v))
            else:
                raise Undecided('cast ' + ck)
        return out

    def convert(self, st, v, src, dst, line=None):
        if src.deref().s == dst.deref().s:
            return v
        if not is_z3(v):
            return v
        if dst.k == 'bool':
            return self.tobool(v)
        if dst.isint and (src.isint or src.k == 'bool'):
            if z3.is_bool(v):
                v = z3.If(v, self.IV(1, dst), self.IV(0, dst))
                return v
            if self.ints == 'bv':
                if v.size() == dst.w:
                    return v
                if v.size() > dst.w:
                    return z3.Extract(dst.w - 1, 0, v)
                return z3.SignExt(dst.w - v.size(), v) if src.sg else z3.ZeroExt(dst.w - v.size(), v)
            slo, shi = self.rng(src)
            lo, hi = self.rng(dst)
            if lo <= slo and shi <= hi:
                return v
            if z3.is_int_value(v):
                x = v.as_long() & ((1 << dst.w) - 1)
                if dst.sg and x >= 1 << (dst.w - 1):
                    x -= 1 << dst.w
                return z3.IntVal(x)
            if self.quick(st, z3.And(v >= lo, v <= hi)):
                return v
            if self.dry is not None:
                return v
            m = v % (1 << dst.w)
            if dst.sg:
                r = z3.If(m >= (1 << (dst.w - 1)), m - (1 << dst.w), m)
            else:
                r = m
            return r
        if dst.k == 'float' and (src.isint or src.k == 'bool'):
            if z3.is_bool(v):
                return z3.If(v, self.fval(1.0, dst), self.fval(0.0, dst))
            if self.reals == 'real':
                return z3.ToReal(self.toint(v))
            if z3.is_bv(v):
                return (z3.fpSignedToFP if src.sg else z3.fpUnsignedToFP)(z3.RNE(), v, self.S.scalar(dst))
            raise Undecided('int to fp')
        if dst.k == 'float' and src.k == 'float':
            if self.reals == 'real':
                return v
            return z3.fpToFP(z3.RNE(), v, self.S.scalar(dst))
        if dst.isint and src.k == 'float':
            if self.reals == 'real':
                tr = self.trunc(v)
                lo, hi = self.rng(dst)
                self.oblige(st, 'float to integer conversion in range', z3.And(tr >= lo, tr <= hi), 'overflow', line)
                if self.ints == 'bv':
                    raise Undecided('real to bv')
                return tr
            if self.ints == 'bv':
                return (z3.fpToSBV if dst.sg else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(dst.w))
            raise Undecided('fp to int')
        if src.k == 'ptr' or dst.k == 'ptr':
            return v
        raise Undecided(f'conversion {src} -> {dst}')

    def trunc(self, v):
        vs = z3.simplify(v)
        return z3.If(vs >= 0, z3.ToInt(vs), -z3.ToInt(-vs))

    # ------------------------------------------------------------ calls
    def ev_call(self, st, e):
        fn = e.get('fn')
        if fn is None:
            # call through a value
            out = []
            for s, vs in self.evs(st, [e['cal']] + e['a']):
                if isinstance(vs[-1], Thrown):
                    out.append((s, vs[-1]))
                    continue
                out += self.call_value(s, self.rv(s, vs[0]), vs[1:], e)
            return out
        if fn['q'] == '__assert_fail':
            if self.dry is None:
                if self.allow_abort is not None:
                    self.oblige(st, 'abort only when permitted', self.allow_abort(self, st), 'assert', e.get('l'))
                else:
                    self.oblige(st, 'assertion holds', z3.BoolVal(False), 'assert', e.get('l'))
            return []
        if e.get('memop'):
            return self.call_method(st, fn, e['a'][0], e['a'][1:], e, False)
        out = []
        if fn['q'] in stdlib.LAZY:
            return stdlib.LAZY[fn['q']](self, st, e)
        for s, vs in self.evs(st, e['a']):
            if vs and isinstance(vs[-1], Thrown):
                out.append((s, vs[-1]))
                continue
            out += self.invoke(s, fn, None, vs, e)
        return out

    def ev_mcall(self, st, e):
        return self.call_method(st, e.get('fn'), e['obj'], e['a'], e, e.get('arrow'))

    def call_method(self, st, fn, obj, args, e, arrow):
        out = []
        for s, vs in self.evs(st, [obj] + args):
            if isinstance(vs[-1], Thrown):
                out.append((s, vs[-1]))
                continue
            o = vs[0]
            if arrow:
                o = self.rv(s, o)
                if isinstance(o, (Ptr, Iter)):
                    o = self.star(s, o)
            out += self.invoke(s, fn, o, vs[1:], e)
        return out

    def call_value(self, st, f, args, e):
        if isinstance(f, Clo):
            return self.call_closure(st, f, args, e)
        if isinstance(f, UFun) and f.hook is not None:
            return f.hook(self, st, args, e)
        if isinstance(f, UFun):
            tys = [self.P.ty(a['t']) for a in (e['a'] if not e.get('memop') else e['a'][1:])]
            vals = [(t, self.rv(st, a)) for t, a in zip(tys, args)]
            rt = self.ty(e)
            r = self.call_ufun(st, f, vals, rt)
            return [(st, r)]
        raise Undecided(f'call of {type(f).__name__}')

    def call_closure(self, st, f, args, e):
        node = f.node
        fn = f.fn
        if fn is None and node and node.get('generic'):
            cands = [s for s in node['specs'] if s['id'] in self.P.fns]
            if len(cands) != 1:
                raise Undecided('generic lambda')
            fn = cands[0]
        if not fn:
            raise Undecided('closure without body')
        if fn['id'] not in self.P.fns:
            return self.invoke(st, fn, None, args, e)
        return self.inline(st, self.P.fns[fn['id']], f.this, args, e, caps=f.caps)

    def invoke(self, st, fn, obj, args, e):
        """call of a named function; obj: implicit object (LV or value) or None"""
        q = fn['q']
        c = self.contracts.get(fn['id'])
        if c is not None:
            return self.apply_contract(st, fn, c, obj, args, e)
        c = self.contracts.get(q)
        if c is not None and callable(getattr(c, 'select', None)) and not c.select(self, fn):
            c = None
        if isinstance(c, list):
            c = None
        if c is not None and self.target != q:
            return self.apply_contract(st, fn, c, obj, args, e)
        x = self.extra_lib.get(q)
        if x is not None:
            r = x(self, st, fn, obj, args, e)
            if r is not NotImplemented:
                self.used_lib.add(q)
                return r
        if fn['id'] in self.P.fns:
            d = self.P.fns[fn['id']]
            th = None
            if 'cls' in d and not d.get('static'):
                th = obj
                if isinstance(th, LV) and q.endswith('operator()') and isinstance(self.read(st, th), Clo):
                    th = self.read(st, th)
                if not isinstance(th, LV):
                    if isinstance(th, Clo):
                        return self.call_closure(st, th, args, e)
                    th = self.new_slot(st, self.P.ty(d['cls']), th)
            return self.inline(st, d, th, args, e)
        if q.endswith('operator()') and obj is not None:
            f = self.rv(st, obj)
            if isinstance(f, (Clo, UFun)):
                return self.call_value(st, f, args, e)
        self.used_lib.add(q)
        return stdlib.call(self, st, fn, obj, args, e)

    def bind_param(self, st, fr, p, a):
        t = self.P.ty(p['t'])
        if t.k == 'ref':
            if not isinstance(a, LV):
                a = self.new_slot(st, t, a)
        else:
            a = self.new_slot(st, t, self.retype(self.rv(st, a), t))
        fr.vars[p['id']] = a
        if p['n']:
            fr.names[p['n']] = p['id']
        fr.types[p['id']] = t.deref().s

    def inline(self, st, d, this, args, e, caps=None):
        chain = st.frames[-1].chain
        if len(chain) > self.max_inline or sum(1 for c in chain if c == d['id']) > 2:
            raise Undecided(f'recursion at {d["q"]}')
        self.inlined.add(d['q'])
        fr = Frame(d, chain + (id(e), d['id']))
        fr.this = this
        if caps:
            for did, (n, lv) in caps.items():
                fr.vars[did] = lv
                fr.names.setdefault(n, did)
        for p, a in zip(d['p'], args):
            self.bind_param(st, fr, p, a)
        st.frames.append(fr)
        out = []
        rt = self.P.ty(d['r'])
        for k, s, v in self.run_body(st, d, args, this):
            s.frames.pop()
            if k == 'throw':
                out.append((s, v))
            else:
                out.append((s, v))
        if self.dry is not None and len(out) > 1:
            live = [o for o in out if not isinstance(o[1], Thrown)] or out
            s, v = live[0]
            if is_z3(v) and any(is_z3(o[1]) and not o[1].eq(v) for o in live[1:]):
                v = self.fresh('dry', v.sort())     # any of the returned values: both outcomes of a test of it are followed
            out = [(s, v)]
        return out

    def apply_contract(self, st, fn, c, obj, args, e):
        self.used_contracts.add(fn['q'])
        args2 = []
        ptys = [self.P.ty(p) for p in fn['p']]
        for t, a in zip(ptys, args):
            if not isinstance(a, LV):
                a = self.new_slot(st, t, a)
            elif t.k != 'ref':
                a = self.new_slot(st, t, self.read(st, a))
            args2.append(a)
        this = obj
        if this is not None and not isinstance(this, LV):
            this = self.new_slot(st, None, this)
        st0 = st.copy()
        ctx = Ctx(self, fn, args2, this, st0, st)
        st0.pc = st.pc
        if c.pre:
            for nm, g in c.pre(ctx):
                self.oblige(st, f'call of {fn["q"]}: precondition: {nm}', g, 'pre', e.get('l'))
        mods = []
        if c.modifies is None:
            for t, a in zip(ptys, args2):
                if t.k == 'ref' and not t.isconst and not t.raw.get('rv'):
                    mods.append(a)
            if this is not None and not fn.get('const') and not fn.get('static'):
                mods.append(this)
        else:
            mods = c.modifies(ctx)
        for lv in mods:
            self.write(st, lv, self.havoc_like(st, self.acc_type(st, lv), self.read(st, lv)))
        rt = self.P.ty(fn['r'])
        ret = None
        if c.result is not None:
            ret = c.result(ctx)
        elif rt.k == 'ref':
            raise Undecided('contract on a function returning a reference')
        elif rt.k != 'void':
            ret = self.havoc(st, rt, 'ret')
        ctx = Ctx(self, fn, args2, this, st0, st, ret)
        if c.post:
            for nm, g in c.post(ctx):
                st.assume(g)
        return [(st, ret)]

    def ev_ctor(self, st, e):
        fn = e['fn']
        t = self.ty(e)
        out = []
        for s, vs in self.evs(st, e['a']):
            if vs and isinstance(vs[-1], Thrown):
                out.append((s, vs[-1]))
                continue
            if fn.get('ctor') in ('copy', 'move') and len(vs) >= 1 and (fn.get('defaulted') or fn['id'] not in self.P.fns):
                v = self.rv(s, vs[0])
                if isinstance(v, VV) and v.ty.s != t.s and t.is_vec:
                    v = VV(t, v.len, v.arr)
                if isinstance(v, tuple):
                    v = stdlib.mapelem_value(self, s, v)
                out.append((s, v))
                continue
            if fn['id'] in self.P.fns:
                d = self.P.fns[fn['id']]
                th = self.new_slot(s, t, self.default_members(s, t))
                for s2, r in self.inline(s, d, th, vs, e):
                    out.append((s2, r if isinstance(r, Thrown) else self.read(s2, th)))
                continue
            if t.is_struct and not t.is_pair and not vs:
                out.append((s, self.default_members(s, t)))
                continue
            if t.is_fun:
                out.append((s, self.rv(s, vs[0]) if vs else Opaque('fn')))
                continue
            self.used_lib.add(fn['q'])
            out += stdlib.construct(self, s, t, fn, vs, e)
        return out

    def default_members(self, st, t):
        v = self.default(st, t)
        if isinstance(v, SV) and not t.is_pair:
            for n, init in t.field_inits().items():
                (s2, x), = self.ev(st, init)
                v.f[n] = self.rv(st, x)
        return v


class Thrown:
    def __init__(self, what=''):
        self.what = what


class Loop:
    """loop specification: inv(L) -> [(name, formula)]; decreases(L) -> Int term"""

    def __init__(self, inv, decreases=None, setup=None, on_body=None, on_step=None, on_exit=None, ghosts=()):
        self.inv, self.decreases, self.setup, self.on_body, self.on_step, self.on_exit = inv, decreases, setup, on_body, on_step, on_exit
        self.ghosts = ghosts


class _SizeT:
    tid = -1
    k = 'int'
    s = 'unsigned long'
    w = 64
    sg = False
    n = None
    raw = {}
    isint = True
    is_vec = is_pair = is_map = is_set = is_pq = is_fun = is_mat = is_struct = False

    def deref(self):
        return self


SIZE_T = _SizeT()

_q = {}


def has_quant(f):
    i = f.get_id()
    r = _q.get(i)
    if r is not None and r[0] is not None and r[0].eq(f):
        return r[1]
    res = _hq(f, set())
    _q[i] = (f, res)
    return res


def _hq(f, seen):
    stack = [f]
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


def FA(vs, body, *pats):
    """ForAll with patterns that are dropped when z3 rejects them"""
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats:
        try:
            return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), body)


def find_ints(n):
    """flatten a constant initialiser list into integers"""
    out = []

    def go(x):
        if x is None:
            return False
        k = x['k']
        if k in ('init',):
            return all(go(y) for y in x['a'])
        if k == 'int':
            out.append(int(x['v']))
            return True
        if k in ('cast', 'mat', 'stdil'):
            return go(x['e'])
        if k == 'ctor' and len(x['a']) == 1:
            return go(x['a'][0])
        if k == 'un' and x['op'] == '-':
            n0 = len(out)
            r = go(x['e'])
            if r and len(out) == n0 + 1:
                out[-1] = -out[-1]
                return True
            return False
        return False

    return out if go(n) else None


def is_void_assert(e):
    b = e.get('b')
    return b is not None and b.get('k') == 'call' and b.get('fn', {}).get('q') == '__assert_fail'
