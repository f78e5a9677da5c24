"""Contracts of item serializers and deserializers passed as std::function, shared by the serialization checks."""
from z3 import *
from values import SV, VV, Iter
from vc import FA
import lib

AI = ArraySort(IntSort(), IntSort())


class Codec:
    """enc(a, at, x): the bytes of array a from position at spell the encoding of x, size(x) bytes long.
    Defined by the item serializer; used through: depends on those bytes only, and decoding what was encoded gives it back."""

    def __init__(self, E, name, ty):
        self.E, self.ty, self.name = E, ty.deref(), name
        s = E.S.sort(self.ty)
        self.enc = Function('spells_' + name, AI, IntSort(), s, BoolSort())
        self.size = Function('size_' + name, s, IntSort())
        self.dec = Function('decoded_' + name, AI, IntSort(), s)
        self.sort = s

    def facts(self):
        a, at, x = Const('ca', AI), Int('cat'), Const('cx', self.sort)
        return [FA([x], And(self.size(x) >= 1, self.size(x) < 2 ** 40), self.size(x)),
                FA([a, at, x], Implies(self.enc(a, at, x), self.dec(a, at) == x), self.enc(a, at, x))]

    def kept(self, old, new, n):
        """encodings inside the first n bytes of old are encodings in new, which agrees with it there"""
        at, x = Int('cat'), Const('cx', self.sort)
        return FA([at, x], Implies(And(self.enc(old, at, x), 0 <= at, at + self.size(x) <= n), self.enc(new, at, x)), self.enc(old, at, x))


def pre_kept(old, new, n):
    k = Int('k')
    return FA([k], Implies(And(0 <= k, k < n), Select(new, k) == Select(old, k)), Select(new, k))


def serializer(codec, codecs):
    def hook(E, st, args, e):
        item, buf = args
        x = codec.E.S.pack(codec.ty, E.rv(st, item))
        b = E.read(st, buf)
        n = codec.size(x)
        arr = E.fresh('ser', AI)
        if E.dry is None:
            st.assume(*codec.facts())
            st.assume(pre_kept(b.arr, arr, b.len), codec.enc(arr, b.len, x), b.len + n < 2 ** 60, n >= 1)
            for c in codecs:
                st.assume(c.kept(b.arr, arr, b.len))
        E.write(st, buf, VV(b.ty, b.len + n, arr))
        return [(st, n)]
    return hook


def deserializer(codec, rty):
    def hook(E, st, args, e):
        b, pos = E.rv(st, args[0]), E.rv(st, args[1])
        x = codec.dec(b.arr, pos)
        st.assume(*codec.facts())
        E.oblige(st, 'an item is deserialized from where one was serialized', And(codec.enc(b.arr, pos, x), pos >= 0, pos + codec.size(x) <= b.len), 'pre', e.get('l'))
        v = E.S.unpack(codec.ty, x)
        E.leaf_facts(st, codec.ty, v)
        t = E.ty(e).deref()
        return [(st, SV(t, {'first': v, 'second': codec.size(x)}))]
    return hook


def kept_after(E, codecs, old, new, n):
    """frame of a write behind position n (definition of an encoding: it depends on its own bytes only)"""
    return And(*[c.kept(old, new, n) for c in codecs])
