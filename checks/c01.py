import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

C = Check('C01', tus=dict(main='#include "/repo/src/arc_utilities/base64_helpers.cpp"\n'),
          proof_scope='Encode and Decode, all inputs: RFC 4648 text of every byte vector, inverse, memory safety of Decode on every string')


def alpha(v):
    """RFC 4648 alphabet"""
    return If(v < 26, 65 + v, If(v < 52, 71 + v, If(v < 62, v - 4, If(v == 62, IntVal(43), IntVal(47)))))


def B(b, i):
    return Select(b.arr, i)


def S(x):       # char as unsigned
    return x


def block(b, s, k):
    """the k-th full block of s encodes bytes 3k..3k+2 of b"""
    b0, b1, b2 = B(b, 3 * k), B(b, 3 * k + 1), B(b, 3 * k + 2)
    return And(B(s, 4 * k) == alpha(b0 / 4), B(s, 4 * k + 1) == alpha((b0 % 4) * 16 + b1 / 16),
               B(s, 4 * k + 2) == alpha((b1 % 16) * 4 + b2 / 64), B(s, 4 * k + 3) == alpha(b2 % 64))


def tail(b, s):
    n = b.len
    k = n / 3
    b0, b1 = B(b, 3 * k), B(b, 3 * k + 1)
    return [('length', s.len == 4 * ((n + 2) / 3)),
            ('one byte left', Implies(n % 3 == 1, And(B(s, 4 * k) == alpha(b0 / 4), B(s, 4 * k + 1) == alpha((b0 % 4) * 16),
                                                     B(s, 4 * k + 2) == 61, B(s, 4 * k + 3) == 61))),
            ('two bytes left', Implies(n % 3 == 2, And(B(s, 4 * k) == alpha(b0 / 4), B(s, 4 * k + 1) == alpha((b0 % 4) * 16 + b1 / 16),
                                                      B(s, 4 * k + 2) == alpha((b1 % 16) * 4), B(s, 4 * k + 3) == 61)))]


def encoded(b, s):
    k = Int('k')
    return [('full blocks', FA([k], Implies(And(0 <= k, 3 * k + 2 < b.len), block(b, s, k)),
                                   B(s, 4 * k)))] + tail(b, s)


@C.unit('Encode')
def _(prog):
    E = Engine(prog)
    f = prog.fn('Base64Helpers::Encode')

    def inv(L):
        k = Int('k')
        b, s, ip, op = L.argv(0), L['encoded'], L['input_position'], L['output_position']
        m = op / 4
        return [('positions', And(ip == 3 * m, op == 4 * m, m >= 0, ip <= b.len)),
                ('size', s.len == 4 * ((b.len + 2) / 3)),
                ('blocks', FA([k], Implies(And(0 <= k, k < m), block(b, s, k)), B(s, 4 * k)))]

    E.verify(f, post=lambda c: encoded(c.arg(0), c.ret),
             loops=[Loop(inv, decreases=lambda L: L.argv(0).len - L['input_position'])])
    return E


@C.unit('Decode inverts the RFC text')
def _(prog):
    E = Engine(prog)
    f = prog.fn('Base64Helpers::Decode')
    gh = {}

    def setup(E, c, st):
        vt = [g for g in prog.fns.values() if g['q'] == 'Base64Helpers::Encode'][0]
        gh['b'] = E.havoc(st, prog.ty(vt['p'][0]['t']).deref(), 'plain')
        i = Int('i')
        st.assume(FA([i], And(B(gh['b'], i) >= 0, B(gh['b'], i) <= 255), B(gh["b"], i)))

    def inv(L):
        k = Int('k')
        b, r, i, j = gh['b'], L['buffer'], L['i'], L['j']
        m = i / 4
        return [('positions', And(i == 4 * m, j == 3 * m, m >= 0)), ('bound', And(i <= L['L'])),
                ('buffer size', r.len == L.entry.slots[L.lv('buffer').sid].len),
                ('decoded so far', FA([k], Implies(And(0 <= k, k < 3 * m), B(r, k) == B(b, k)), B(r, k)))]

    def step(L):
        # one block: the table inverts the alphabet, and the 24 bits are the three bytes
        b, s, i = gh['b'], L.argv(0), L['i']
        m = i / 4
        bs = [B(b, 3 * m + q) for q in range(3)]
        L.E.lemma(L.st, 'block in range', And(3 * m + 2 < b.len, 4 * m == i, *[And(x >= 0, x < 256) for x in bs]))
        L.E.lemma(L.st, 'block text', block(b, s, m))
        vs = [bs[0] / 4, (bs[0] % 4) * 16 + bs[1] / 16, (bs[1] % 16) * 4 + bs[2] / 64, bs[2] % 64]
        nm = 'tbl_Base64Helpers::B64IndexTable'
        for q in range(4):
            if nm in L.E.ladders:
                c = B(s, i + q)
                L.E.lemma(L.st, f'sextet {q}', And(c >= 0, c < 128, L.E.ladder(nm, c, None) == vs[q]))

    def post(c):
        b, r = gh['b'], c.ret
        i = Int('i')
        return [('length', r.len == b.len), ('bytes', FA([i], Implies(And(0 <= i, i < b.len), B(r, i) == B(b, i)), B(r, i)))]

    E.verify(f, name='Base64Helpers::Decode(text of b)', setup=setup, pre=lambda c: encoded(gh['b'], c.arg(0)), post=post,
             loops=[Loop(inv, decreases=lambda L: L['L'] - L['i'], on_body=step)])
    return E


@C.unit('Decode is memory safe on every string')
def _(prog):
    E = Engine(prog)
    f = prog.fn('Base64Helpers::Decode')

    def inv(L):
        i, j = L['i'], L['j']
        m = i / 4
        return [('positions', And(i == 4 * m, j == 3 * m, m >= 0, i <= L['L'])),
                ('buffer size', L['buffer'].len == L.old('buffer').len)]

    E.verify(f, name='Base64Helpers::Decode(any text)', loops=[Loop(inv, decreases=lambda L: L['L'] - L['i'])])
    return E


C.cpp('c01.cpp', sources=['src/arc_utilities/base64_helpers.cpp'])

if __name__ == '__main__':
    run(C)
