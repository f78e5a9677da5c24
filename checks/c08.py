import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State

TU = '''#include <unordered_set>
#include "/repo/include/arc_utilities/eigen_helpers.hpp"
#include "/repo/include/arc_utilities/simple_astar_planner.hpp"
inline void use() { typedef simple_astar_planner::SimpleAStarPlanner<int64_t> P;
std::function<std::vector<int64_t>(const int64_t&)> gen; std::function<double(const int64_t&, const int64_t&)> d; std::function<double(const int64_t&)> h; std::function<bool(const int64_t&)> g;
P::Plan(0, gen, d, h, g);
}
'''
C = Check('C08', tus=dict(main=TU), proof_scope='the planner and its path extraction, partial correctness (termination of the search loop is left to the bounded run; termination of path extraction is proved)',
          assumptions=['callbacks are pure; the hash function agrees with the equality of configurations',
                       'the cheapest-path part assumes a consistent heuristic that is 0 at every goal and priorities that are equal or differ by more than the tolerance of the comparator (1e-10 relative; 2e-10 is required)',
                       'a property that fails at the end of a path first fails at some position (well-ordering)',
                       'sums of costs are finite, rounding is ignored'])
I, R = IntSort(), RealSort()
pn, pk = Function('path_node', I, I), Function('path_edge', I, I)
gs = Function('path_cost', I, R)
W, H, m = Bool('a_path_to_a_goal'), Bool('consistent_heuristic_and_distinct_priorities'), Int('path_len')
i, j, k, q, u, v = Ints('i j k q u v')
EX = 'simple_astar_planner::SimpleAStarPlanner::ExtractPathBasic'


class Spec:
    pass


def types(prog, f):
    T = lambda n: prog.ty(f['p'][n]['t']).deref()
    flt = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'float' and prog.types[x].get('w') == 64)
    bl = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'bool')
    vec = prog.ty(f['r']).args[0]
    return T(0), vec, flt, bl


def spec(E, prog, f):
    P = Spec()
    P.E = E
    it, vec, D, B = types(prog, f)

    def bind(c):
        S0 = State()
        P.start = c.arg(0)
        nb = lambda x: E.call_ufun(S0, c.arg(1), [(it, x)], vec)
        P.deg = lambda x: nb(x).len
        P.child = lambda x, y: Select(nb(x).arr, y)
        P.d = lambda x, y: E.call_ufun(S0, c.arg(2), [(it, x), (it, y)], D)
        P.h = lambda x: E.call_ufun(S0, c.arg(3), [(it, x)], D)
        P.goal = lambda x: E.call_ufun(S0, c.arg(4), [(it, x)], B)
    P.bind = bind
    return P


def problem(P):
    return [('a path to a goal', Implies(W, And(m >= 0, pn(0) == P.start, P.goal(pn(m)), gs(0) == 0,
                                               FA([j], Implies(And(0 <= j, j < m), And(0 <= pk(j), pk(j) < P.deg(pn(j)), P.child(pn(j), pk(j)) == pn(j + 1),
                                                                                      gs(j + 1) == gs(j) + P.d(pn(j), pn(j + 1)))), pn(j))))),
            # consistency along the path, in the form it is used (it follows from h(u) <= d(u, v) + h(v) by induction)
            ('consistent heuristic', Implies(H, And(W, FA([i, j], Implies(And(0 <= i, i <= j, j <= m), gs(i) + P.h(pn(i)) <= gs(j) + P.h(pn(j))), MultiPattern(pn(i), pn(j))),
                                                    FA([u], Implies(P.goal(u), P.h(u) == 0), P.goal(u)))))]


def maps(L):
    X, G, B = L['explored'], L['cost_to_come'], L['backpointers']
    return (lambda x: Select(X.dom, x)), (lambda x: Select(G.dom, x)), (lambda x: Select(G.val, x)), (lambda x: Select(B.dom, x)), (lambda x: Select(B.val, x))


def qe(P, Q, x):
    f = P.E.S.unpack(Q.ty.args[0], Select(Q.arr, x)).f
    return f['first'], f['second']


def invariant(P, L, cur=None, pos=None):
    inX, inG, g, inB, b = maps(L)
    Q = L['frontier']
    T, KX, clk = L.st.ghost['T'], L.st.ghost['KX'], L.st.ghost['clock']
    id, val = qe(P, Q, q)
    s = P.start
    id0, val0 = qe(P, Q, IntVal(0))
    done = L['goal_reached'] if cur is None else BoolVal(False)
    first = And(inX(s), Select(T, s) <= clk)
    if cur is None:
        first = Or(first, And(FA([v], Not(inX(v)), inX(v)), FA([v], Not(inB(v)), inB(v)), done == False, Q.len == 1, id0 == s, val0 == P.h(s)), And(done, P.goal(s), FA([v], Not(inB(v)), inB(v))))
    ch = P.child(u, k)
    part = [] if cur is None else [Or(u != cur, k < pos)]
    r = [('start', And(inG(s), g(s) == 0, Not(inB(s)))), ('start first', first), ('clock', clk >= 0),
         ('expanded nodes are not goals', FA([v], Implies(inX(v), And(Not(P.goal(v)), Select(T, v) <= clk, Select(T, v) >= 0, Or(v == s, inB(v)))), inX(v))),
         ('known nodes', FA([v], inG(v) == Or(v == s, inB(v)), inG(v), inB(v))),
         ('backpointers', FA([v], Implies(inB(v), And(inX(b(v)), 0 <= Select(KX, v), Select(KX, v) < P.deg(b(v)), P.child(b(v), Select(KX, v)) == v,
                                                      g(v) == g(b(v)) + P.d(b(v), v), Implies(inX(v), Select(T, b(v)) < Select(T, v)))), inB(v), b(v))),
         ('expanded nodes are known', FA([v], Implies(inX(v), inG(v)), inX(v), inG(v))),
         ('queued nodes', FA([q], Implies(And(0 <= q, q < Q.len), And(inG(id), val >= g(id) + P.h(id))), Select(Q.arr, q))),
         ('open nodes are queued', Implies(Not(done), FA([v], Implies(And(inG(v), Not(inX(v))), Exists([q], And(0 <= q, q < Q.len, id == v, val == g(v) + P.h(v)))), inG(v)))),
         ('edges of expanded nodes are covered', FA([u, k], Implies(And(inX(u), 0 <= k, k < P.deg(u), *part), And(inG(ch), Or(inX(ch), g(ch) <= g(u) + P.d(u, ch)))), P.child(u, k))),
         ('expanded nodes of the path are reached at their least cost', Implies(H, FA([j], Implies(And(0 <= j, j <= m, inX(pn(j))), g(pn(j)) <= gs(j)), pn(j))))]
    return r


def chain(P, path, L):
    """the path found, in terms of the maps"""
    inX, inG, g, inB, b = maps(L)
    a = lambda x: Select(path.arr, x)
    last = a(path.len - 1)
    return [('ends of the path', And(path.len >= 1, a(0) == P.start, P.goal(last), inG(last), Implies(H, g(last) <= gs(m)))),
            ('steps of the path', FA([j], Implies(And(0 <= j, j < path.len - 1), And(inB(Select(path.arr, j + 1)), b(Select(path.arr, j + 1)) == a(j), inX(a(j)))), a(j)))]


@C.unit('Plan')
def _(prog):
    E = Engine(prog)
    E.pq_hints = ('push', 'pop')
    E.pq_guard = H
    f = prog.fn('simple_astar_planner::SimpleAStarPlanner::Plan')
    P = spec(E, prog, f)
    ex = prog.fn(EX)
    E.contracts[ex['id']] = Contract(pre=lambda c: extract_pre(E, c, c.st0.ghost['rank']), post=lambda c: extract_post(E, c))

    def setup(E_, c, st):
        st.ghost['T'], st.ghost['KX'], st.ghost['clock'] = K(I, IntVal(0)), K(I, IntVal(0)), IntVal(0)
        st.ghost['rank'] = K(I, IntVal(0))
        P.bind(c)

    def outer(L):
        path = L['results'].f['first']
        return invariant(P, L) + [(n, Implies(L['goal_reached'], x)) for n, x in chain(P, path, L)] + [('no path so far', Implies(Not(L['goal_reached']), path.len == 0)),
                                                                                                     ('an empty queue means that everything reachable is expanded', BoolVal(True))]

    def least(L, n, inX):
        """well-ordering: for every position up to m whose node is not expanded, the first such position"""
        F = E.fresh('J', ArraySort(I, I))
        L.st.assume(FA([n], Implies(And(0 <= n, n <= m, Not(inX(pn(n)))), And(0 <= Select(F, n), Select(F, n) <= n, Not(inX(pn(Select(F, n)))),
                                                                             FA([j], Implies(And(0 <= j, j < Select(F, n)), inX(pn(j))), pn(j)))), pn(n)))
        return lambda x: Select(F, x)

    def before(L, J, inX, guard, extra):
        c = lambda x: And(Not(inX(pn(J(x)))), Or(J(x) == 0, And(inX(pn(J(x) - 1)), P.child(pn(J(x) - 1), pk(J(x) - 1)) == pn(J(x)), gs(J(x)) == gs(J(x) - 1) + P.d(pn(J(x) - 1), pn(J(x))), extra(J(x) - 1))))
        E.lemma(L.st, 'the first open node of the path follows an expanded one', Implies(guard, FA([i], Implies(And(0 <= i, i <= m, Not(inX(pn(i)))), c(i)), pn(i))))

    def popped(L, Q, cur):
        E.lemma(L.st, 'the node taken has the least priority', Implies(H, FA([q], Implies(And(0 <= q, q < Q.len), cur.f['second'] <= qe(P, Q, q)[1]), Select(Q.arr, q))))

    def body(L):
        inX, inG, g, inB, b = maps(L)
        Q = L['frontier']
        T, clk = L.st.ghost['T'], L.st.ghost['clock']
        r = E.fresh('rank', ArraySort(I, I))
        L.st.assume(FA([v], Select(r, v) == If(inX(v), Select(T, v), clk + 1), Select(r, v)))
        L.st.ghost['rank'] = r
        J = least(L, i, inX)
        id, val = qe(P, Q, q)
        n = E.fresh('n', I)
        before(L, J, inX, H, lambda x: g(pn(x)) <= gs(x))
        E.lemma(L.st, 'the first open node of the path is known at its least cost', Implies(H, FA([i], Implies(And(0 <= i, i <= m, Not(inX(pn(i)))), And(inG(pn(J(i))), g(pn(J(i))) <= gs(J(i)), Not(inX(pn(J(i)))))), pn(i))))
        E.lemma(L.st, 'the path to an open node crosses the queue', Implies(H, FA([i], Implies(And(0 <= i, i <= m, Not(inX(pn(i)))), Exists([q], And(0 <= q, q < Q.len, val <= gs(i) + P.h(pn(i))))), pn(i))))
        # hypothesis H includes that the comparator tells the queued priorities apart
        L.st.ghost['Q0'] = Q
        qa, qb = Ints('qa qb')
        va, vb = qe(P, Q, qa)[1], qe(P, Q, qb)[1]
        ab = lambda x: If(x >= 0, x, -x)
        mn = If(ab(va) <= ab(vb), ab(va), ab(vb))
        L.st.assume(Implies(H, FA([qa, qb], Implies(And(0 <= qa, qa < Q.len, 0 <= qb, qb < Q.len, ab(va - vb) <= RealVal('2/10000000000') * mn), va == vb), MultiPattern(Select(Q.arr, qa), Select(Q.arr, qb)))))

    def inner(L):
        cur, pos = L['current'].f['first'], L.pos
        inX, inG, g, inB, b = maps(L)
        N = L['neighbours']
        path = L['results'].f['first']
        return invariant(P, L, cur, pos) + [('expanding', And(inX(cur), 0 <= pos, pos <= P.deg(cur), N.len == P.deg(cur), L['current_cost_to_come'] == g(cur), Select(L.st.ghost['T'], cur) == L.st.ghost['clock'],
                                                              path.len == 0, Not(L['goal_reached'])))]

    def inner_setup(L):
        g = L.st.ghost
        popped(L, g['Q0'], L['current'])
        g['clock'] = g['clock'] + 1
        g['T'] = Store(g['T'], L['current'].f['first'], g['clock'])

    def step(L):
        Q0, Q1 = L.prev['frontier'], L['frontier']
        cur, pos = L['current'].f['first'], L.prev.pos
        kx = L.st.ghost['KX']
        inX, inG, g, inB, b = maps(L)
        _, inG0, g0, _, _ = maps(L.prev)
        ch = P.child(cur, pos)
        id, val = qe(P, Q1, Q0.len)
        E.lemma(L.st, 'at most the neighbour considered is queued and updated', And(Or(And(Q1.len == Q0.len, FA([v], And(inG(v) == inG0(v), g(v) == g0(v)), inG(v), g(v))), And(Q1.len == Q0.len + 1, id == ch, val == g(ch) + P.h(ch), inG(ch))),
                                                                                    FA([v], Implies(v != ch, And(inG(v) == inG0(v), g(v) == g0(v))), inG(v), g(v)),
                                                                                    FA([q], Implies(And(0 <= q, q < Q0.len), Select(Q1.arr, q) == Select(Q0.arr, q)), Select(Q0.arr, q))))
        E.lemma(L.st, 'the neighbour is queued or expanded', Or(inX(ch), Exists([q], And(0 <= q, q < Q1.len, qe(P, Q1, q)[0] == ch, qe(P, Q1, q)[1] == g(ch) + P.h(ch)))))
        E.lemma(L.st, 'other open nodes stay queued', FA([v], Implies(And(inG(v), Not(inX(v)), Or(v != ch, Q1.len == Q0.len)), Exists([q], And(0 <= q, q < Q0.len, qe(P, Q1, q)[0] == v, qe(P, Q1, q)[1] == g(v) + P.h(v)))), inG(v)))
        L.st.ghost['KX'] = If(Q1.len == Q0.len + 1, Store(kx, P.child(cur, pos), pos), kx)

    def post(c):
        path, stats = c.ret.f['first'], c.ret.f['second']
        a = lambda x: Select(path.arr, x)
        inX, inG, g, inB, b = c.st1.ghost['maps']
        return [('an empty path means that no goal can be reached', Implies(path.len == 0, Not(W))),
                ('the path leads from the start to a goal', Implies(path.len > 0, And(a(0) == P.start, P.goal(a(path.len - 1))))),
                ('every step leads to a neighbour, no goal is passed', Implies(path.len > 0, FA([j], Implies(And(0 <= j, j < path.len - 1), And(Not(P.goal(a(j))), Exists([k], And(0 <= k, k < P.deg(a(j)), P.child(a(j), k) == Select(path.arr, j + 1))))), a(j)))),
                ('costs add up along the path', Implies(path.len > 0, And(g(P.start) == 0, FA([j], Implies(And(0 <= j, j < path.len - 1), g(Select(path.arr, j + 1)) == g(a(j)) + P.d(a(j), Select(path.arr, j + 1))), a(j))))),
                ('no path to a goal is cheaper', Implies(And(path.len > 0, H), g(a(path.len - 1)) <= gs(m)))]

    def on_exit(L):
        L.st.ghost['maps'] = maps(L)
        J = least(L, i, maps(L)[0])
        inX, inG, g, inB, b = maps(L)
        before(L, J, inX, And(W, Not(L['goal_reached'])), lambda x: BoolVal(True))
        E.lemma(L.st, 'a path to a goal leaves the expanded nodes', Implies(And(W, Not(L['goal_reached'])), And(inG(pn(J(m))), Not(inX(pn(J(m)))))))

    E.verify(f, setup=setup, pre=lambda c: (P.bind(c), problem(P))[1], post=post,
             loops=[Loop(outer, ghosts=['T', 'clock', 'KX', 'rank'], on_body=body, on_step=lambda L: popped(L, L.prev['frontier'], L['current']), on_exit=on_exit), Loop(inner, ghosts=['T', 'clock', 'KX'], setup=inner_setup, on_step=step, decreases=lambda L: L['neighbours'].len - L.pos)])
    return E


RANK = Const('rank', ArraySort(I, I))


def extract_pre(E, c, r):
    B = c.arg(0)
    return [('following backpointers decreases', FA([v], And(Select(r, v) >= 0, Implies(Select(B.dom, v), Select(r, Select(B.val, v)) < Select(r, v))), Select(B.dom, v), Select(r, v)))]


def extract_post(E, c):
    B, last, p = c.arg(0), c.arg(1), c.ret
    a = lambda x: Select(p.arr, x)
    return [('ends', And(p.len >= 1, a(p.len - 1) == last, Not(Select(B.dom, a(0))))),
            ('steps', FA([j], Implies(And(0 <= j, j < p.len - 1), And(Select(B.dom, Select(p.arr, j + 1)), Select(B.val, Select(p.arr, j + 1)) == a(j))), a(j)))]


@C.unit('ExtractPathBasic')
def _(prog):
    E = Engine(prog)

    def inv(L):
        B, last0 = L.argv(0), L.old('last_state')
        p, last, it = L['path'], L['last_state'], L['backpointer_ittr']
        a = lambda x: Select(p.arr, x)
        return [('iterator', And(it.key == last, it.found == Select(B.dom, last))), ('first', If(p.len > 0, And(a(0) == last0, Select(B.dom, a(p.len - 1)), last == Select(B.val, a(p.len - 1))), last == last0)),
                ('steps', FA([j], Implies(And(0 <= j, j < p.len), And(Select(B.dom, a(j)), Implies(j > 0, a(j) == Select(B.val, Select(p.arr, j - 1))))), a(j)))]
    E.verify(prog.fn(EX), pre=lambda c: extract_pre(E, c, RANK), post=lambda c: extract_post(E, c),
             loops=[Loop(inv, decreases=lambda L: Select(RANK, L['last_state']))])
    return E


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c08.cpp')):
    C.cpp('c08.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
