import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include <string>
#include "/repo/include/arc_utilities/simple_rrt_planner.hpp"
inline void use() { using namespace simple_rrt_planner; typedef int64_t S; typedef SimpleRRTPlannerState<S> N; typedef std::vector<N> Tree;
std::function<int64_t(const Tree&, const S&)> nn; std::function<bool(const S&)> goal; std::function<S(void)> samp; std::function<std::vector<std::pair<S, int64_t>>(const S&, const S&)> prop;
std::function<void(Tree&, const int64_t)> cb; std::function<bool(void)> term; std::function<bool(const S&, const S&)> conn; std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> bcb;
std::mt19937 g; Tree t, t2; typedef SimpleHybridRRTPlanner P; typedef SimpleHybridBiRRTPlanner B;
P::PlanMultiPath(t, nn, cb, goal, cb, samp, prop, term); B::PlanMultiPath(t, t2, nn, cb, conn, bcb, samp, prop, .5, .5, term, g); t[0].RemoveChildIndex(3); t[0].ClearChildIndicies(); t[0].SetParentIndex(3); }
'''
C = Check('C29', tus=dict(main=TU), proof_scope='the growing of the trees and the extraction of the paths of both planners, for integer states, any callbacks and any number of samples (partial correctness: the loop ends when the termination check says so)',
          assumptions=['the extension and goal callbacks leave the trees as they are', 'nearest_neighbor_fn returns a negative number or any index of the tree; sampling_fn, termination_check_fn and the random draws are arbitrary', 'goal_reached_fn and states_connected_fn are pure',
                       'forward_propagation_fn returns relative parent indices below the position of the state (otherwise the planner throws, which is only exercised)'])
I = IntSort()
i, j, k, q = Ints('i j k q')
NS = 'simple_rrt_planner::'
R, B = NS + 'SimpleHybridRRTPlanner::', NS + 'SimpleHybridBiRRTPlanner::'
STEP, GOAL, CONN = Function('extends', I, I, BoolSort()), Function('is_goal', I, BoolSort()), Function('connected', I, I, BoolSort())
IX = ArraySort(I, I)


class T:
    """a tree value: parent, value, children of node x"""

    def __init__(s, E, v):
        s.E, s.v, s.n = E, v, v.len

    def node(s, x):
        return s.E.S.unpack(s.v.et, Select(s.v.arr, x)).f

    def raw(s, x):
        return Select(s.v.arr, x)

    def par(s, x):
        return s.node(x)['parent_index_']

    def val(s, x):
        return s.node(x)['value_']

    def init(s, x):
        return s.node(x)['initialized_']

    def kids(s, x):
        return s.node(x)['child_indices_']


def lists(t, p, x):
    """x is among the children of p"""
    c = t.kids(p)
    return Exists([q], And(0 <= q, q < c.len, Select(c.arr, q) == x))


def kid_ok(t, x, y):
    return And(0 < y, y < t.n, y != x, t.init(y), t.par(y) == x)


def kids_ok(t, x, upto=None):
    c = t.kids(x)
    return FA([k], Implies(And(0 <= k, k < (c.len if upto is None else upto)), kid_ok(t, x, Select(c.arr, k))), Select(c.arr, k))


def parent_ok(t, x):
    p = t.par(x)
    return Or(p == -1, And(0 <= p, p < t.n, p != x, t.init(p), lists(t, p, x)))


def parts(t, upto=None):
    r = lambda f: FA([i], Implies(And(0 <= i, i < (t.n if upto is None else upto)), f(i)), t.raw(i))
    return [('nodes are initialized', r(t.init)), ('parents are linked', r(lambda x: parent_ok(t, x))), ('children are linked', r(lambda x: kids_ok(t, x)))]


def linked(t, upto=None):
    return And(*[f for n, f in parts(t, upto)])


def below(t):
    return FA([i], Implies(And(0 <= i, i < t.n), And(t.par(i) >= -1, t.par(i) < i)), t.raw(i))


@C.unit('CheckTreeLinkage and child lists')
def _(prog):
    E = Engine(prog)
    tree = lambda L: T(E, L.argv(0))
    E.verify(prog.fn(R + 'CheckTreeLinkage'), post=lambda c: [('true exactly when every node and its links are valid', c.ret == linked(T(E, c.arg(0))))],
             loops=[Loop(lambda L: [('node', And(0 <= L['current_index'], L['current_index'] <= tree(L).n)), ('nodes so far are linked', linked(tree(L), L['current_index']))], decreases=lambda L: tree(L).n - L['current_index']),
                    Loop(lambda L: [('child', And(0 <= L['idx'], L['idx'] <= L['current_child_indices'].len)), ('children so far are linked', kids_ok(tree(L), L['current_index'], L['idx']))], decreases=lambda L: L['current_child_indices'].len - L['idx'])])
    N = NS + 'SimpleRRTPlannerState::'
    ch = lambda t: t.f['child_indices_']
    has = lambda v, x, upto=None: Exists([q], And(0 <= q, q < (v.len if upto is None else upto), Select(v.arr, q) == x))
    same = lambda a, b: And(a.f['parent_index_'] == b.f['parent_index_'], a.f['value_'] == b.f['value_'], a.f['initialized_'] == b.f['initialized_'])
    pre = lambda a, b: FA([k], Implies(And(0 <= k, k < b.len), Select(a.arr, k) == Select(b.arr, k)), Select(a.arr, k), Select(b.arr, k))
    E.verify(prog.fn(N + 'AddChildIndex'), post=lambda c: [('rest unchanged', same(c.this1, c.this)), ('others are kept', And(pre(ch(c.this1), ch(c.this)))),
                                                        ('listed once more only if it was not', And(has(ch(c.this1), c.arg(0)), ch(c.this1).len == ch(c.this).len + If(has(ch(c.this), c.arg(0)), 0, 1)))],
             loops=[Loop(lambda L: [('position', And(0 <= L['idx'], L['idx'] <= ch(L.this).len)), ('not found', Not(has(ch(L.this), L.argv(0), L['idx'])))], decreases=lambda L: ch(L.this).len - L['idx'])])
    E.verify(prog.fn(N + 'RemoveChildIndex'), post=lambda c: [('rest unchanged', same(c.this1, c.this)), ('gone', Not(has(ch(c.this1), c.arg(0)))), ('only old ones', FA([k], Implies(And(0 <= k, k < ch(c.this1).len), has(ch(c.this), Select(ch(c.this1).arr, k))), Select(ch(c.this1).arr, k))),
                                                              ('others are kept', FA([k], Implies(And(0 <= k, k < ch(c.this).len, Select(ch(c.this).arr, k) != c.arg(0)), has(ch(c.this1), Select(ch(c.this).arr, k))), Select(ch(c.this).arr, k)))],
             loops=[Loop(lambda L: [('position', And(0 <= L['idx'], L['idx'] <= ch(L.this).len, L['new_child_indices'].len <= L['idx'])), ('only old ones, without the one removed', FA([k], Implies(And(0 <= k, k < L['new_child_indices'].len), And(Select(L['new_child_indices'].arr, k) != L.argv(0), has(ch(L.this), Select(L['new_child_indices'].arr, k), L['idx']))), Select(L['new_child_indices'].arr, k))),
                                    ('others so far are kept', FA([k], Implies(And(0 <= k, k < L['idx'], Select(ch(L.this).arr, k) != L.argv(0)), has(L['new_child_indices'], Select(ch(L.this).arr, k))), Select(ch(L.this).arr, k)))], decreases=lambda L: ch(L.this).len - L['idx'])])
    return E


# ---------------------------------------------------------------- path extraction

def path_of(t, path, ix, g):
    """path holds the values of the nodes ix[0], ix[1], ... from a root to node g along the parent links"""
    x = lambda p: Select(ix, p)
    n = path.len
    return And(n >= 1, t.par(x(0)) == -1, x(n - 1) == g,
               FA([k], Implies(And(0 <= k, k < n), And(0 <= x(k), x(k) < t.n, Select(path.arr, k) == t.val(x(k)))), x(k), Select(path.arr, k)),
               FA([k], Implies(And(0 <= k, k < n - 1), t.par(Select(ix, k + 1)) == x(k)), x(k)))


@C.unit('ExtractSolutionPath')
def _(prog):
    E = Engine(prog)

    def setup(E_, c, st):
        st.ghost['up'] = Store(K(I, IntVal(0)), 0, c.arg(1))

    def inv(L):
        t, u, path, p = T(E, L.argv(0)), L.st.ghost['up'], L['solution_path'], L['parent_index']
        x = lambda y: Select(u, y)
        return [('nodes so far', FA([k], Implies(And(0 <= k, k < path.len), And(0 <= x(k), x(k) < t.n, Select(path.arr, k) == t.val(x(k)))), x(k), Select(path.arr, k))),
                ('links so far', FA([k], Implies(And(0 <= k, k < path.len - 1), t.par(x(k)) == Select(u, k + 1)), x(k))),
                ('next', And(path.len >= 1, x(0) == L.argv(1), p == t.par(x(path.len - 1)), p >= -1, p < t.n))]

    def step(L):
        n = L.prev['solution_path'].len
        L.st.ghost['up'] = Store(L.st.ghost['up'], n, L.prev['parent_index'])

    def on_exit(L):
        u, n = L.st.ghost['up'], L['solution_path'].len
        ix = E.fresh('ix', IX)
        L.st.assume(FA([k], Select(ix, k) == Select(u, n - 1 - k), Select(ix, k)))
        L.st.ghost['ix'] = ix
    E.verify(prog.fn(R + 'ExtractSolutionPath'), setup=setup, pre=lambda c: extract_pre(E, c), post=lambda c: [('path', path_of(T(E, c.arg(0)), c.ret, c.st1.ghost['ix'], c.arg(1)))],
             loops=[Loop(inv, ghosts=['up'], decreases=lambda L: L['parent_index'] + 1, on_step=step, on_exit=on_exit)])
    return E


def extract_pre(E, c):
    t = T(E, c.arg(0))
    return [('goal node', And(0 <= c.arg(1), c.arg(1) < t.n)), ('parents come first', below(t))]


def extract_contract(E):
    def post(c):
        ix = E.fresh('ix', IX)
        c.st1.ghost['ix'] = ix
        return [('path', path_of(T(E, c.arg(0)), c.ret, ix, c.arg(1)))]
    return Contract(pre=lambda c: extract_pre(E, c), post=post, modifies=lambda c: [])


def all_paths(E, t, paths, goals, ixs, upto=None):
    p = lambda x: E.S.unpack(paths.et, Select(paths.arr, x))
    return FA([j], Implies(And(0 <= j, j < (goals.len if upto is None else upto)), path_of(t, p(j), Select(ixs, j), Select(goals.arr, j))), Select(paths.arr, j), Select(ixs, j))


@C.unit('ExtractSolutionPaths')
def _(prog):
    E = Engine(prog)
    E.contracts[prog.fn(R + 'ExtractSolutionPath')['id']] = extract_contract(E)

    def setup(E_, c, st):
        st.ghost['ixs'] = E.fresh('ixs', ArraySort(I, IX))

    def inv(L):
        v = L['solution_paths']
        return [('position', And(0 <= L['idx'], L['idx'] <= L.argv(1).len, v.len == L['idx'])), ('paths so far', all_paths(E, T(E, L.argv(0)), v, L.argv(1), L.st.ghost['ixs'], L['idx']))]

    def step(L):
        L.st.ghost['ixs'] = Store(L.st.ghost['ixs'], L.prev['idx'], L.st.ghost['ix'])
    E.verify(prog.fn(R + 'ExtractSolutionPaths'), setup=setup, pre=lambda c: paths_pre(E, c), post=lambda c: [('one path per goal', And(c.ret.len == c.arg(1).len, all_paths(E, T(E, c.arg(0)), c.ret, c.arg(1), c.st1.ghost['ixs'])))],
             loops=[Loop(inv, ghosts=['ixs'], decreases=lambda L: L.argv(1).len - L['idx'], on_step=step)])
    return E


def paths_pre(E, c):
    t, g = T(E, c.arg(0)), c.arg(1)
    return [('goal nodes', FA([k], Implies(And(0 <= k, k < g.len), And(0 <= Select(g.arr, k), Select(g.arr, k) < t.n)), Select(g.arr, k))), ('parents come first', below(t))]


def paths_contract(E):
    def post(c):
        ixs = E.fresh('ixs', ArraySort(I, IX))
        c.st1.ghost['ixs'] = ixs
        return [('one path per goal', And(c.ret.len == c.arg(1).len, all_paths(E, T(E, c.arg(0)), c.ret, c.arg(1), ixs)))]
    return Contract(pre=lambda c: paths_pre(E, c), post=post, modifies=lambda c: [])


# ---------------------------------------------------------------- growing a tree

def hooks(E, c, names):
    """what the callbacks of the verified function do; names: role -> position"""
    val = lambda st, a: E.rv(st, a)

    def put(role, f):
        if role in names:
            for x in (names[role] if isinstance(names[role], tuple) else (names[role],)):
                c.arg(x).hook = f
    any_ = lambda E_, st, args, e: [(st, E.havoc(st, E.ty(e), 'any'))]
    for r in ('sample', 'stop'):
        put(r, any_)

    def nearest(E_, st, args, e):
        r = E.havoc(st, E.ty(e), 'nearest')
        st.assume(r < E.rv(st, args[0]).len)
        return [(st, r)]
    put('nearest', nearest)
    put('callback', lambda E_, st, args, e: [(st, None)])
    put('goal', lambda E_, st, args, e: [(st, GOAL(val(st, args[0])))])
    put('connected', lambda E_, st, args, e: [(st, CONN(val(st, args[0]), val(st, args[1])))])

    def grow(E_, st, args, e):
        near = val(st, args[0])
        r = E.havoc(st, E.ty(e), 'propagated')
        x = lambda y: E.S.unpack(r.et, Select(r.arr, y)).f
        st.assume(r.len < 2 ** 40, FA([k], Implies(And(0 <= k, k < r.len), And(x(k)['second'] < k, If(x(k)['second'] < 0, STEP(near, x(k)['first']), STEP(x(x(k)['second'])['first'], x(k)['first'])))), Select(r.arr, k)))
        return [(st, r)]
    put('grow', grow)


def goals_ok(E, t, g, inv, n=None):
    """g lists exactly the goal nodes below n"""
    n = t.n if n is None else n
    x = lambda y: Select(g.arr, y)
    return And(FA([k], Implies(And(0 <= k, k < g.len), And(0 <= x(k), x(k) < n, GOAL(t.val(x(k))))), x(k)),
               FA([j, k], Implies(And(0 <= j, j < k, k < g.len), x(j) < x(k)), MultiPattern(x(j), x(k))),
               FA([i], Implies(And(0 <= i, i < n, GOAL(t.val(i))), And(0 <= Select(inv, i), Select(inv, i) < g.len, x(Select(inv, i)) == i)), t.raw(i), Select(inv, i)))


def grown(E, t0, t):
    """t extends t0: nodes are kept with their values and parents, new ones extend their parents"""
    return And(t.n >= t0.n, FA([i], Implies(And(0 <= i, i < t0.n), And(t.val(i) == t0.val(i), t.par(i) == t0.par(i), t.init(i) == t0.init(i))), t.raw(i)),
               FA([i], Implies(And(t0.n <= i, i < t.n), And(0 <= t.par(i), t.par(i) < i, STEP(t.val(t.par(i)), t.val(i)))), t.raw(i)))


def check_contract(E):
    return Contract(pre=lambda c: [], post=lambda c: [('linked', c.ret == linked(T(E, c.arg(0))))], modifies=lambda c: [])


def add_child_contract(E):
    def post(c):
        a, b, x = c.this1.f['child_indices_'], c.this.f['child_indices_'], c.arg(0)
        return [('rest unchanged', And(*[c.this1.f[n] == c.this.f[n] for n in ('parent_index_', 'value_', 'initialized_')])),
                ('added at the end', Implies(FA([k], Implies(And(0 <= k, k < b.len), Select(b.arr, k) != x), Select(b.arr, k)), And(a.len == b.len + 1, Select(a.arr, b.len) == x))),
                ('others are kept', FA([k], Implies(And(0 <= k, k < b.len), Select(a.arr, k) == Select(b.arr, k)), Select(a.arr, k), Select(b.arr, k)))]
    return Contract(pre=lambda c: [], post=post)


def sizes(t):
    return And(t.n < 2 ** 39, FA([i], t.kids(i).len < 2 ** 39, t.raw(i)))


def added(E, st, v0, v1):
    t0, t = T(E, v0), T(E, v1)
    n, p = t0.n, t.par(t0.n)
    c0, c = t0.kids(p), t.kids(p)
    E.lemma(st, 'the node added', And(t.n == n + 1, t.init(n), t.kids(n).len == 0, 0 <= p, p < n))
    E.lemma(st, 'its parent', And(t.init(p), t.par(p) == t0.par(p), t.val(p) == t0.val(p), c.len == c0.len + 1, Select(c.arr, c0.len) == n, FA([k], Implies(And(0 <= k, k < c0.len), Select(c.arr, k) == Select(c0.arr, k)), Select(c.arr, k), Select(c0.arr, k))))
    E.lemma(st, 'the other nodes', FA([i], Implies(And(0 <= i, i < n, i != p), t.raw(i) == t0.raw(i)), t.raw(i), t0.raw(i)))
    E.lemma(st, 'values and parents', FA([i], Implies(And(0 <= i, i < n), And(t.val(i) == t0.val(i), t.par(i) == t0.par(i), t.init(i))), t.raw(i), t0.raw(i)))
    E.lemma(st, 'lists are kept', FA([i, j], Implies(And(0 <= i, i < n, lists(t0, i, j)), lists(t, i, j)), MultiPattern(t.raw(i), t.raw(j))))
    E.lemma(st, 'parents are valid', parts(t)[1][1])
    E.lemma(st, 'children of the parent are valid', kids_ok(t, p))
    E.lemma(st, 'children are valid', parts(t)[2][1])


@C.unit('single tree')
def _(prog):
    E = Engine(prog)
    f = prog.fn(R + 'PlanMultiPath', lambda P, f: len(f['p']) == 8)
    E.contracts[prog.fn(R + 'CheckTreeLinkage')['id']] = check_contract(E)
    E.contracts[prog.fn(R + 'ExtractSolutionPaths')['id']] = paths_contract(E)
    E.contracts[prog.fn(NS + 'SimpleRRTPlannerState::AddChildIndex')['id']] = add_child_contract(E)

    def setup(E_, c, st):
        hooks(E, c, dict(nearest=1, callback=(2, 4), goal=3, sample=5, grow=6, stop=7))
        st.ghost['GI'] = K(I, IntVal(0))
        st.ghost['base'] = IntVal(0)

    def pre(c):
        t = T(E, c.arg(0))
        return [('parents come first', below(t)), ('room', t.n < 2 ** 39)]

    def known(L):
        st = L.st.ghost['t0']
        return st

    def base(L):
        t, t0 = T(E, L.argv(0)), T(E, L.st.ghost['t0'])
        return [('tree', And(t.n >= 1))] + parts(t) + [('parents come first', below(t)), ('grown from the given tree', grown(E, t0, t))]

    def first(L):
        g = L['goal_state_indices']
        return [('position', And(0 <= L['idx'], L['idx'] <= L.argv(0).len)), ('goals so far', goals_ok(E, T(E, L.argv(0)), g, L.st.ghost['GI'], L['idx']))]

    def goal_step(L, t, x):
        g0, g = L.prev['goal_state_indices'], L['goal_state_indices']
        F = E.fresh('GI', IX)
        L.st.assume(F == If(g.len > g0.len, Store(L.st.ghost['GI'], x, g0.len), L.st.ghost['GI']))
        L.st.ghost['GI'] = F

    def loop(L):
        return base(L) + [('goals so far', goals_ok(E, T(E, L.argv(0)), L['goal_state_indices'], L.st.ghost['GI']))]

    def inner(L):
        t, r, x, near = T(E, L.argv(0)), L['propagated'], L['idx'], L['nearest_neighbor_index']
        b = L.st.ghost['base']
        return loop(L) + [('position', And(0 <= x, x <= r.len, t.n == b + x, 0 <= near, near < b)),
                          ('states added', FA([k], Implies(And(0 <= k, k < x), t.val(b + k) == E.S.unpack(r.et, Select(r.arr, k)).f['first']), Select(r.arr, k))),
                          ('extension of the nearest neighbour', FA([k], Implies(And(0 <= k, k < r.len, E.S.unpack(r.et, Select(r.arr, k)).f['second'] < 0), STEP(t.val(near), E.S.unpack(r.et, Select(r.arr, k)).f['first'])), Select(r.arr, k)))]

    def inner_setup(L):
        L.st.ghost['base'] = L.argv(0).len

    def inner_step(L):
        t = T(E, L.argv(0))
        added(E, L.st, L.prev.argv(0), L.argv(0))
        goal_step(L, t, t.n - 1)

    def post(c):
        t0, t = T(E, c.arg(0)), T(E, c.fin(0))
        paths, g = c.ret.f['first'], c.st1.ghost['goals']
        return [('a start is given', And(t0.n >= 1, linked(t0))), ('linked', linked(t)), ('grown from the given tree', grown(E, t0, t)), ('goal nodes', goals_ok(E, t, g, c.st1.ghost['GI'])),
                ('one path to every goal node', And(paths.len == g.len, all_paths(E, t, paths, g, c.st1.ghost['ixs'])))]

    def on_exit(L):
        L.st.ghost['goals'] = L['goal_state_indices']

    def setup2(E_, c, st):
        setup(E_, c, st)
        st.ghost['t0'] = c.arg(0)
    E.verify(f, setup=setup2, pre=pre, post=post, throws=lambda c: Or(c.arg(0).len == 0, Not(linked(T(E, c.arg(0))))),
             loops=[Loop(first, ghosts=['GI'], decreases=lambda L: L.argv(0).len - L['idx'], on_step=lambda L: goal_step(L, None, L.prev['idx'])),
                    Loop(loop, ghosts=['GI', 'base'], on_exit=on_exit),
                    Loop(inner, ghosts=['GI'], setup=inner_setup, on_step=inner_step, decreases=lambda L: L['propagated'].len - L['idx'])])
    return E


# ---------------------------------------------------------------- two trees

def halves(ts, tg, path, ix, iz, n, bs, bg):
    """path leads from the root of the start tree to node bs (n states), then from node bg to the root of the goal tree"""
    x, z, m = (lambda p: Select(ix, p)), (lambda p: Select(iz, p)), path.len
    at = lambda p: Select(path.arr, p)
    return [('ends', And(1 <= n, n < m, ts.par(x(0)) == -1, x(n - 1) == bs, z(n) == bg, tg.par(z(m - 1)) == -1)),
            ('start half', FA([k], Implies(And(0 <= k, k < n), And(0 <= x(k), x(k) < ts.n, at(k) == ts.val(x(k)))), x(k), at(k))), ('links of the start half', FA([k], Implies(And(0 <= k, k < n - 1), ts.par(Select(ix, k + 1)) == x(k)), x(k))),
            ('goal half', FA([k], Implies(And(n <= k, k < m), And(0 <= z(k), z(k) < tg.n, at(k) == tg.val(z(k)))), z(k), at(k))),
            ('links of the goal half', FA([k], Implies(And(n <= k, k < m - 1), tg.par(z(k)) == Select(iz, k + 1)), z(k)))]


@C.unit('two trees')
def _(prog):
    E = Engine(prog)
    f = prog.fn(B + 'PlanMultiPath', lambda P, f: P.ty(f['p'][0]['t']).deref().n == 'std::vector')
    E.contracts[prog.fn(R + 'CheckTreeLinkage')['id']] = check_contract(E)
    E.contracts[prog.fn(R + 'ExtractSolutionPath')['id']] = extract_contract(E)
    E.contracts[prog.fn(NS + 'SimpleRRTPlannerState::AddChildIndex')['id']] = add_child_contract(E)
    AI = ArraySort(I, IX)

    def setup(E_, c, st):
        hooks(E, c, dict(nearest=2, callback=(3, 5), connected=4, sample=6, grow=7, stop=10))
        g = st.ghost
        g['base'], g['s0'], g['g0'], g['IXS'], g['IYS'], g['N'] = IntVal(0), c.arg(0), c.arg(1), E.fresh('ixs', AI), E.fresh('iys', AI), E.fresh('n', IX)

    def pre(c):
        return [('parents come first', And(below(T(E, c.arg(0))), below(T(E, c.arg(1))))), ('room', And(c.arg(0).len < 2 ** 39, c.arg(1).len < 2 ** 39))]

    def br(b, x):
        u = E.S.unpack(b.et, Select(b.arr, x)).f
        return u['first'], u['second']

    def bridges(L):
        b, ts, tg = L['goal_bridges'], T(E, L.argv(0)), T(E, L.argv(1))
        s, g = br(b, k)
        return FA([k], Implies(And(0 <= k, k < b.len), And(0 <= s, s < ts.n, 0 <= g, g < tg.n, Or(CONN(ts.val(s), tg.val(g)), CONN(tg.val(g), ts.val(s))))), Select(b.arr, k))

    def base(L):
        r = []
        for x, w in ((0, 's0'), (1, 'g0')):
            t, t0 = T(E, L.argv(x)), T(E, L.st.ghost[w])
            r += [('tree', t.n >= 1)] + parts(t) + [('parents come first', below(t)), ('grown from the given tree', grown(E, t0, t))]
        return r + [('trees are connected at the bridges', bridges(L))]

    def first(L):
        return [('position', And(0 <= L['start_tree_idx'], L['start_tree_idx'] <= L.argv(0).len)), ('bridges', bridges(L))]

    def second(L):
        return [('position', And(0 <= L['start_tree_idx'], L['start_tree_idx'] < L.argv(0).len, 0 <= L['goal_tree_idx'], L['goal_tree_idx'] <= L.argv(1).len)), ('bridges', bridges(L))]

    def inner(L):
        act = L['start_tree_active']
        r, x, near = L['propagated'], L['idx'], L['nearest_neighbor_index']
        n = L.st.ghost['base']
        out = base(L) + [('position', And(0 <= x, x <= r.len, 0 <= near, near < n)), ('target', Implies(L['sample_from_tree'], And(0 <= L['target_tree_node_index'])))]
        for a, o, flag in ((0, 1, act), (1, 0, Not(act))):
            t, u = T(E, L.argv(a)), T(E, L.argv(o))
            out += [('size', Implies(flag, t.n == n + x)), ('the target is in the other tree', Implies(And(flag, L['sample_from_tree']), And(L['target_tree_node_index'] < u.n, L['target_state'] == u.val(L['target_tree_node_index'])))),
                    ('states added', Implies(flag, FA([k], Implies(And(0 <= k, k < x), t.val(n + k) == E.S.unpack(r.et, Select(r.arr, k)).f['first']), Select(r.arr, k)))),
                    ('extension of the nearest neighbour', Implies(flag, FA([k], Implies(And(0 <= k, k < r.len, E.S.unpack(r.et, Select(r.arr, k)).f['second'] < 0), STEP(t.val(near), E.S.unpack(r.et, Select(r.arr, k)).f['first'])), Select(r.arr, k))))]
        return out

    def inner_setup(L):
        L.st.ghost['base'] = If(L['start_tree_active'], L.argv(0).len, L.argv(1).len)

    def inner_step(L):
        for x in (0, 1):
            if not z3.eq(L.prev.argv(x).arr, L.argv(x).arr):
                added(E, L.st, L.prev.argv(x), L.argv(x))

    def extract(L):
        ts, tg, b, v, g = T(E, L.argv(0)), T(E, L.argv(1)), L['goal_bridges'], L['planned_paths'], L.st.ghost
        return [('position', And(0 <= L['goal_bridge_idx'], L['goal_bridge_idx'] <= b.len, v.len == L['goal_bridge_idx'])),
                ] + over(ts, tg, v, b, g)

    def over(ts, tg, v, b, g):
        s, d = br(b, j)
        hs = halves(ts, tg, E.S.unpack(v.et, Select(v.arr, j)), Select(g['IXS'], j), Select(g['IYS'], j), Select(g['N'], j), s, d)
        return [('paths so far: ' + n, FA([j], Implies(And(0 <= j, j < v.len), h), Select(v.arr, j), Select(g['IXS'], j))) for n, h in hs]

    def extract_step(L):
        g, x = L.st.ghost, L.prev['goal_bridge_idx']
        s, d = br(L['goal_bridges'], x)
        v = L['planned_paths']
        path, z = E.S.unpack(v.et, Select(v.arr, x)), E.fresh('iz', IX)
        L.st.assume(FA([k], Select(z, k) == Select(g['ix second'], path.len - 1 - k), Select(z, k)))
        for n, h in halves(T(E, L.argv(0)), T(E, L.argv(1)), path, g['ix first'], z, g['n first'], s, d):
            E.lemma(L.st, 'path over the bridge: ' + n, h)
        g['IXS'], g['IYS'], g['N'] = Store(g['IXS'], x, g['ix first']), Store(g['IYS'], x, z), Store(g['N'], x, g['n first'])

    def ex_post(c):
        r = extract_contract(E).post(c)
        g = c.st1.ghost
        w = 'first' if g.get('half', 0) == 0 else 'second'
        g['half'] = 1 - g.get('half', 0)
        g['ix ' + w], g['n ' + w] = g['ix'], c.ret.len
        return r
    E.contracts[prog.fn(R + 'ExtractSolutionPath')['id']] = Contract(pre=lambda c: extract_pre(E, c), post=ex_post, modifies=lambda c: [])

    def on_exit(L):
        L.st.ghost['bridges'] = L['goal_bridges']

    def post(c):
        s0, ts, g0, tg = T(E, c.arg(0)), T(E, c.fin(0)), T(E, c.arg(1)), T(E, c.fin(1))
        paths, b, g = c.ret.f['first'], c.st1.ghost['bridges'], c.st1.ghost
        s, d = br(b, j)
        return [('roots are given', And(s0.n >= 1, g0.n >= 1, linked(s0), linked(g0))), ('start tree linked', linked(ts)), ('goal tree linked', linked(tg)), ('grown from the given start tree', grown(E, s0, ts)), ('grown from the given goal tree', grown(E, g0, tg)),
                ('bridges connect the trees', FA([j], Implies(And(0 <= j, j < b.len), Or(CONN(ts.val(s), tg.val(d)), CONN(tg.val(d), ts.val(s)))), Select(b.arr, j))),
                ('one path over every bridge', paths.len == b.len)] + over(ts, tg, paths, b, g)
    E.verify(f, setup=setup, pre=pre, post=post, throws=lambda c: Or(c.arg(0).len == 0, c.arg(1).len == 0, Not(linked(T(E, c.arg(0)))), Not(linked(T(E, c.arg(1))))),
             loops=[Loop(first, decreases=lambda L: L.argv(0).len - L['start_tree_idx']), Loop(second, decreases=lambda L: L.argv(1).len - L['goal_tree_idx']),
                    Loop(base, ghosts=['base'], on_exit=on_exit), Loop(inner, setup=inner_setup, on_step=inner_step, decreases=lambda L: L['propagated'].len - L['idx']),
                    Loop(extract, ghosts=['IXS', 'IYS', 'N'], on_step=extract_step, decreases=lambda L: L['goal_bridges'].len - L['goal_bridge_idx'])])
    return E


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c29.cpp')):
    C.cpp('c29.cpp', secs=(6, 60))

if __name__ == '__main__':
    run(C)
