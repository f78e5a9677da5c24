import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include <random>
#include <queue>
#include <iostream>
#include <cassert>
#include "/repo/include/arc_utilities/eigen_helpers.hpp"
#include "/repo/include/arc_utilities/path_utils.hpp"
inline void use() { typedef int64_t S; std::vector<S> v; std::mt19937 g;
std::function<bool(const S&, const S&)> ok; std::function<double(const S&, const S&)> d; std::function<S(const S&, const S&, const double)> ip;
path_utils::ShortcutSmoothPath(v, 1, 2, .5, ok, g); path_utils::ResamplePath(v, 1., d, ip); path_utils::ResamplePathPartial(v, 0, 1, 1., d, ip);
path_utils::UpsamplePath(v, 1, d, ip); path_utils::UpsamplePathPartial(v, 0, 1, 1, d, ip); }
'''
C = Check('C25', tus=dict(main=TU), proof_scope='integer configurations and any callbacks', assumptions=['callbacks are pure', 'random draws are arbitrary values of the range of their distribution', 'double arithmetic is taken as exact real arithmetic; the harness allows rounding'])
I, R = IntSort(), RealSort()
i, j, k, t = Ints('i j k t')
NS = 'path_utils::'


def at(v, x):
    return Select(v.arr, x)


def types(prog, f):
    dbl = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'float' and prog.types[x].get('w') == 64)
    bl = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'bool')
    return prog.ty(f['p'][0]['t']).deref().args[0], dbl, bl


# ---------------------------------------------------------------- shortcuts

@C.unit('ShortcutSmoothPath')
def _(prog):
    E = Engine(prog)
    f = prog.fn(NS + 'ShortcutSmoothPath')
    it, dbl, bl = types(prog, f)
    S0 = State()
    valid = lambda c, a, b: E.call_ufun(S0, c(4), [(it, a), (it, b)], bl)

    def chain(c, v, M):
        """v[k] is the state M[k] of the given path: first and last are kept, the order is kept, only checked steps skip states"""
        p = c(0)
        m = lambda x: Select(M, x)
        n = v.len
        return [('length', And(n <= p.len, Or(n == p.len, n >= 2))),
                ('ends', Implies(n > 0, And(m(0) == 0, m(n - 1) == p.len - 1))),
                ('states of the path', FA([k], Implies(And(0 <= k, k < n), And(0 <= m(k), m(k) < p.len, at(v, k) == at(p, m(k)))), m(k), at(v, k))),
                ('in order', FA([j, k], Implies(And(0 <= j, j < k, k < n), m(j) < m(k)), MultiPattern(m(j), m(k)))),
                ('only valid steps skip states', FA([k], Implies(And(0 <= k, k < n - 1), Or(m(k + 1) == m(k) + 1, valid(c, at(p, m(k)), at(p, m(k + 1))))), m(k)))]

    def setup(E_, c, st):
        M = E.fresh('M', ArraySort(I, I))
        st.assume(FA([k], Select(M, k) == k, Select(M, k)))
        st.ghost['M'] = M

    def inv(L):
        n, fl = L['num_iterations'], L['failed_iterations']
        return chain(L.argv, L['current_path'], L.st.ghost['M']) + [('iterations', And(0 <= n, n <= L.argv(1), 0 <= fl, fl <= L.argv(2), fl <= n)),
                                                                     ('nothing tried yet', Implies(Or(n == 0, L.argv(2) == 0, L.argv(0).len <= 2), L['current_path'].len == L.argv(0).len))]

    def step(L):
        n0, n1 = L.prev['current_path'].len, L['current_path'].len
        M0, M = L.st.ghost['M'], E.fresh('M', ArraySort(I, I))
        if z3.eq(L.prev['current_path'].arr, L['current_path'].arr):
            return
        s = L['start_index']
        L.st.assume(FA([k], Select(M, k) == If(k <= s, Select(M0, k), Select(M0, k + (n0 - n1))), Select(M, k)))
        L.st.ghost['M'] = M
        e = L['end_index']
        E.lemma(L.st, 'the states joined', And(s + 1 < e, n0 - n1 == e - s - 1, Select(M, s) == Select(M0, s), Select(M, s + 1) == Select(M0, e), valid(L.argv, at(L.argv(0), Select(M0, s)), at(L.argv(0), Select(M0, e)))))

    def post(c):
        return chain(c.arg, c.ret, c.st1.ghost['M']) + [('short paths are kept', Implies(Or(c.arg(0).len <= 2, c.arg(1) == 0, c.arg(2) == 0), c.ret.len == c.arg(0).len))]
    E.verify(f, setup=setup, pre=lambda c: [('fraction', And(0 <= c.arg(3), c.arg(3) <= 1))], post=post,
             loops=[Loop(inv, ghosts=['M'], decreases=lambda L: L.argv(1) - L['num_iterations'], on_step=step)])
    return E


# ---------------------------------------------------------------- resampling

segs, off, pos = Function('segments', I, I), Function('offset', I, I), Function('position', I, I, I)


def resample_spec(E, it, dbl, lo, hi):
    S0 = State()

    def d(c, x):
        return E.call_ufun(S0, c(DI[0]), [(it, at(c(0), x)), (it, at(c(0), x + 1))], dbl)

    def ip(c, x, r):
        return E.call_ufun(S0, c(DI[0] + 1), [(it, at(c(0), x)), (it, at(c(0), x + 1)), (dbl, r)], it)
    DI = [4]
    res = lambda c: c(DI[0] - 1)

    def pre(c):
        a = c.arg
        q = d(a, k) / res(a)
        return [('resolution', And(res(a) > 0)),
                ('distances', FA([k], Implies(And(lo(a) <= k, k < hi(a) - 1), And(d(a, k) >= 0, q <= 2 ** 32 - 2)), at(a(0), k))),
                ('segments are the distance over the resolution, rounded up', FA([k], Implies(And(lo(a) <= k, k < hi(a) - 1), And(segs(k) >= 0, ToReal(segs(k)) >= q, ToReal(segs(k)) < q + 1)), segs(k), at(a(0), k))),
                ('offsets', And(off(lo(a)) == 1, FA([k], Implies(And(lo(a) <= k, k < hi(a) - 1), off(k + 1) == off(k) + segs(k)), segs(k), off(k)))),
                ('positions', FA([k, t], pos(k, t) == off(k) + t - 1, pos(k, t)))]

    def value(a, v):
        want = If(segs(k) == 1, at(a(0), k + 1), ip(a, k, ToReal(t) / ToReal(segs(k))))
        return at(v, pos(k, t)) == want
    return DI, pre, value, d, ip


def bad(a, lo, hi):
    return Or(lo(a) >= hi(a), hi(a) > a(0).len)


@C.unit('ResamplePath')
def _(prog):
    es = []
    for name in ('ResamplePathPartial', 'ResamplePath'):
        E = Engine(prog)
        es.append(E)
        f = prog.fn(NS + name)
        it, dbl, bl = types(prog, f)
        part = name.endswith('Partial')
        lo, hi = (lambda a: a(1), lambda a: a(2)) if part else (lambda a: IntVal(0), lambda a: a(0).len)
        DI, pre, value, d, ip = resample_spec(E, it, dbl, lo, hi)
        DI[0] = 4 if part else 2

        def common(L):
            a = L.argv
            x = L['idx']
            v = L['resampled_path']
            return [('range', And(0 <= lo(a), lo(a) < hi(a), hi(a) <= a(0).len, lo(a) <= x, x <= hi(a) - 1)), ('first state', And(v.len >= 1, at(v, 0) == at(a(0), lo(a)))),
                    ('later offsets', And(off(x) >= 1, FA([k], Implies(And(lo(a) <= k, k < x), And(1 <= off(k), segs(k) >= 0, off(k) + segs(k) <= off(x))), segs(k), off(k)))),
                    ('states so far', FA([k, t], Implies(And(lo(a) <= k, k < x, 1 <= t, t <= segs(k)), value(a, v)), pos(k, t)))]

        def outer(L):
            return common(L) + [('length', L['resampled_path'].len == off(L['idx']))]

        def inner(L):
            x, s, v = L['idx'], L['segment'], L['resampled_path']
            a = L.argv
            return common(L) + [('position', And(lo(a) <= x, x < hi(a) - 1, 1 <= s, s <= segs(x) + 1, L['num_segments'] == segs(x), segs(x) >= 2, v.len == off(x) + s - 1, segs(x) < 2 ** 32 - 1)),
                                ('values', And(L['current_state'] == at(a(0), x), L['next_state'] == at(a(0), x + 1))),
                                ('states of the segment so far', FA([t], Implies(And(1 <= t, t < s), at(v, pos(x, t)) == ip(a, x, ToReal(t) / ToReal(segs(x)))), pos(x, t)))]

        def on_body(L):
            x = L['idx']
            a = L.argv
            q = d(a, x) / (a(DI[0] - 1))
            E.lemma(L.st, 'the segments of this step', And(segs(x) >= 0, ToReal(segs(x)) >= q, ToReal(segs(x)) < q + 1, q >= 0, off(x + 1) == off(x) + segs(x)))

        def post(c):
            a, v = c.arg, c.ret
            n = hi(a)
            return [('length', v.len == off(n - 1)), ('first state', And(v.len >= 1, at(v, 0) == at(a(0), lo(a)))),
                    ('every step is cut into equal parts', FA([k, t], Implies(And(lo(a) <= k, k < n - 1, 1 <= t, t <= segs(k)), And(value(a, v), 1 <= pos(k, t), pos(k, t) < v.len)), pos(k, t)))]
        E.verify(f, pre=pre, post=post, throws=lambda c: bad(c.arg, lo, hi),
                 loops=[Loop(outer, decreases=lambda L: hi(L.argv) - L['idx'], on_body=on_body), Loop(inner, decreases=lambda L: L['num_segments'] - L['segment'] + 1)])
    return es


# ---------------------------------------------------------------- upsampling

@C.unit('UpsamplePath')
def _(prog):
    es = []
    share = Function('share', I, I, R)
    place = Function('place', I, I, I)
    for name in ('UpsamplePathPartial', 'UpsamplePath'):
        E = Engine(prog)
        es.append(E)
        E.pq_hints = ('push', 'pop')
        f = prog.fn(NS + name)
        it, dbl, bl = types(prog, f)
        part = name.endswith('Partial')
        lo, hi = (lambda a: a(1), lambda a: a(2)) if part else (lambda a: IntVal(0), lambda a: a(0).len)
        D = 4 if part else 2
        num = lambda a: a(D - 1)
        S0 = State()
        d = lambda a, x: E.call_ufun(S0, a(D), [(it, at(a(0), lo(a) + x)), (it, at(a(0), lo(a) + x + 1))], dbl)
        ip = lambda a, x, r: E.call_ufun(S0, a(D + 1), [(it, at(a(0), lo(a) + x)), (it, at(a(0), lo(a) + x + 1)), (dbl, r)], it)
        n = lambda a: hi(a) - lo(a) - 1

        def pre(c):
            a = c.arg
            return [('a range of the path', And(0 <= lo(a), lo(a) < hi(a), hi(a) <= a(0).len, a(0).len < 2 ** 40, num(a) < 2 ** 40)), ('a single state cannot be upsampled', Or(num(a) <= 1, n(a) >= 1)),
                    ('distances', FA([k], Implies(And(0 <= k, k < n(a)), d(a, k) >= 0), at(a(0), lo(a) + k)))]

        def setup(E_, c, st):
            a = c.arg
            st.ghost['P'] = E.fresh('P', ArraySort(I, I))
            cum = E.fresh('cum', ArraySort(I, I))
            st.assume(FA([k], Select(cum, k) == k, Select(cum, k)))
            st.ghost['cum'] = cum
            st.assume(FA([k, j], Implies(And(0 <= k, k < n(a), j >= 1), And(share(k, j) * ToReal(j) == d(a, k), share(k, j) >= 0)), share(k, j)))

        def lengths(L):
            a, x = L.argv, L['ind'] - lo(L.argv)
            ln, Q = L['individual_lengths'], L['ordered_segment_lengths']
            e = lambda q: E.S.unpack(Q.ty.args[0], Select(Q.arr, q)).f
            return [('position', And(0 <= x, x <= n(a), Q.len == x, ln.len == n(a))), ('lengths so far', FA([k], Implies(And(0 <= k, k < x), at(ln, k) == d(a, k)), at(ln, k))),
                    ('queue so far', FA([k], Implies(And(0 <= k, k < x), And(e(k)['second'] == k, e(k)['first'] == d(a, k))), Select(Q.arr, k)))]

        def lengths_exit(L):
            P = L.st.ghost['P']
            L.st.assume(FA([k], Select(P, k) == k, Select(P, k)))
            E.lemma(L.st, 'one piece per segment', FA([k], Implies(And(0 <= k, k < n(L.argv)), share(k, 1) == d(L.argv, k)), share(k, 1)))

        def counts(a, C, cum):
            return [('sums grow', FA([j, k], Implies(And(0 <= j, j <= k, k <= n(a)), Select(cum, j) <= Select(cum, k)), MultiPattern(Select(cum, j), Select(cum, k)))), ('pieces', FA([k], Implies(And(0 <= k, k < n(a)), And(at(C, k) >= 1, Select(cum, k + 1) == Select(cum, k) + at(C, k))), at(C, k), Select(cum, k))), ('sums', And(C.len == n(a), Select(cum, 0) == 0))]

        def greedy(a, C):
            return [('only the longest pieces are cut', FA([j, k], Implies(And(0 <= j, j < n(a), 0 <= k, k < n(a), at(C, k) >= 2), share(k, at(C, k) - 1) >= share(j, at(C, j))), MultiPattern(at(C, j), at(C, k))))]

        def split(L):
            a = L.argv
            x, C, Q, P, cum = L['idx'], L['num_points_per_segment'], L['ordered_segment_lengths'], L.st.ghost['P'], L.st.ghost['cum']
            e = lambda q: E.S.unpack(Q.ty.args[0], Select(Q.arr, q)).f
            ln = L['individual_lengths']
            return counts(a, C, cum) + [('not too many pieces', FA([k], Implies(And(0 <= k, k < n(a)), at(C, k) <= x), at(C, k))), ('position', And(n(a) + 1 <= x, x <= num(a), Select(cum, n(a)) == x - 1, Q.len == n(a), ln.len == n(a), n(a) >= 1)), ('lengths', FA([k], Implies(And(0 <= k, k < n(a)), at(ln, k) == d(a, k)), at(ln, k))),
                    ('queue', FA([k], Implies(And(0 <= k, k < Q.len), And(0 <= e(k)['second'], e(k)['second'] < n(a), Select(P, e(k)['second']) == k, e(k)['first'] == share(e(k)['second'], at(C, e(k)['second'])))), Select(Q.arr, k))),
                    ('every segment is queued', FA([k], Implies(And(0 <= k, k < n(a)), And(0 <= Select(P, k), Select(P, k) < Q.len, e(Select(P, k))['second'] == k)), Select(P, k), at(C, k)))] + greedy(a, C)

        def split_step(L):
            a = L.argv
            m, Q0, P0, cum0 = L['segment_ind'], L.prev['ordered_segment_lengths'], L.st.ghost['P'], L.st.ghost['cum']
            C0, C = L.prev['num_points_per_segment'], L['num_points_per_segment']
            e = lambda q: E.S.unpack(Q0.ty.args[0], Select(Q0.arr, q)).f
            kk = Select(P0, m)
            c = at(C0, m)
            E.lemma(L.st, 'the segment cut has the longest pieces', And(0 <= m, m < n(a), FA([j], Implies(And(0 <= j, j < n(a)), share(m, c) >= share(j, at(C0, j))), at(C0, j))))
            A, B, K = share(m, c), share(m, c + 1), ToReal(c)
            E.lemma(L.st, 'its pieces', And(A * K == d(a, m), B * (K + 1) == d(a, m), A >= 0, B >= 0, K >= 1, at(L['individual_lengths'], m) == d(a, m)))
            E.lemma(L.st, 'the new length', L['new_length'] == B)
            ra, rb, rk = Reals('ra rb rk')
            E.lemma(L.st, 'more pieces are shorter', FA([ra, rb, rk], Implies(And(ra * rk == rb * (rk + 1), rk >= 1, ra >= 0), rb <= ra), MultiPattern(ra * rk, rb * (rk + 1))))
            E.lemma(L.st, 'its pieces get shorter', B <= A)
            L.st.ghost['P'] = Store(Store(P0, e(Q0.len - 1)['second'], kk), m, Q0.len - 1)
            cum = E.fresh('cum', ArraySort(I, I))
            L.st.assume(FA([k], Select(cum, k) == Select(cum0, k) + If(k > m, 1, 0), Select(cum, k), Select(cum0, k)))
            L.st.ghost['cum'] = cum

        def split_exit(L):
            cum = L.st.ghost['cum']
            L.st.assume(FA([j, k], place(j, k) == Select(cum, j) + k, place(j, k)))

        def value(a, C, v, x, y):
            return at(v, place(x, y)) == ip(a, x, ToReal(y) * (RealVal(1) / ToReal(at(C, x))))

        def build(L, x=None):
            a = L.argv
            C, v, cum = L['num_points_per_segment'], L['upsampled_path'], L.st.ghost['cum']
            x = L['segment_ind'] if x is None else x
            return counts(a, C, cum) + greedy(a, C) + [('range', And(0 <= x, x <= n(a), v.len == num(a), Select(cum, n(a)) == num(a) - 1, Select(cum, x) <= num(a) - 1)),
                                                       ('states so far', FA([j, k], Implies(And(0 <= j, j < x, 0 <= k, k < at(C, j)), value(a, C, v, j, k)), place(j, k)))]

        def build_outer(L):
            return build(L) + [('next', L['next_upsampled_ind'] == Select(L.st.ghost['cum'], L['segment_ind']))]

        def build_inner(L):
            a = L.argv
            C, v, cum = L['num_points_per_segment'], L['upsampled_path'], L.st.ghost['cum']
            x, y = L['segment_ind'], L['interpolation_ind']
            return build(L) + [('position', And(x < n(a), 0 <= y, y <= at(C, x), L['next_upsampled_ind'] == Select(cum, x) + y, Select(cum, x + 1) == Select(cum, x) + at(C, x), Select(cum, x + 1) <= num(a) - 1, L['one_div_points_in_segment'] * ToReal(at(C, x)) == 1)),
                               ('states of the segment so far', FA([k], Implies(And(0 <= k, k < y), value(a, C, v, x, k)), place(x, k)))]

        def build_exit(L):
            L.st.ghost['C'] = L['num_points_per_segment']

        def post(c):
            a, v = c.arg, c.ret
            same = num(a) <= n(a) + 1
            r = [('number of states', v.len == If(same, n(a) + 1, num(a))), ('a portion with enough states is returned as it is', Implies(same, FA([k], Implies(And(0 <= k, k < v.len), at(v, k) == at(a(0), lo(a) + k)), at(v, k)))),
                 ('last state', at(v, v.len - 1) == at(a(0), hi(a) - 1))]
            if 'C' in c.st1.ghost:
                C, cum = c.st1.ghost['C'], c.st1.ghost['cum']
                r += counts(a, C, cum) + greedy(a, C) + [('the pieces add up', Select(cum, n(a)) == num(a) - 1), ('every segment is cut into equal pieces', FA([j, k], Implies(And(0 <= j, j < n(a), 0 <= k, k < at(C, j)), value(a, C, v, j, k)), place(j, k)))]
            return r
        E.verify(f, setup=setup, pre=pre, post=post,
                 loops=[Loop(lengths, decreases=lambda L: hi(L.argv) - L['ind'], on_exit=lengths_exit), Loop(split, ghosts=['P', 'cum'], decreases=lambda L: num(L.argv) - L['idx'], on_step=split_step, on_exit=split_exit),
                        Loop(build_outer, decreases=lambda L: n(L.argv) - L['segment_ind'], on_exit=build_exit), Loop(build_inner, decreases=lambda L: at(L['num_points_per_segment'], L['segment_ind']) - L['interpolation_ind'])])
    return es


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c25.cpp')):
    C.cpp('c25.cpp', secs=(6, 60))

if __name__ == '__main__':
    run(C)
