"""Contracts assumed for the C++ standard library and Eigen (trusted models; the evidence lists the ones a proof used)."""
import z3

from values import *


def Thrown_(what='throw'):
    import vc
    return vc.Thrown(what)


LAZY = {}


def last(q):
    # last component of a qualified name (operators contain no ::)
    i = q.rfind('::operator')
    if i >= 0:
        return q[i + 2:]
    return q.split('::')[-1]


def one(st, v):
    return [(st, v)]


# ---------------------------------------------------------------- pointers and iterators

def idx64(E, i):
    if z3.is_bv(i) and i.size() != 64:
        return z3.SignExt(64 - i.size(), i)
    return i


def iter_step(E, st, it, d):
    if it.kind not in ('vec', 'mapit'):
        raise Undecided('stepping a map iterator')
    return Iter(it.lv, z3.simplify(it.idx + d), kind=it.kind, rev=it.rev)


def ptr_add(E, st, p, d):
    d = idx64(E, d)
    if p.lv is None or not p.lv.acc or p.lv.acc[-1][0] != 'i':
        raise Undecided('pointer arithmetic on a plain pointer')
    return Ptr(LV(p.lv.sid, p.lv.acc[:-1] + (('i', z3.simplify(p.lv.acc[-1][1] + d)),)))


def base_of(p):
    return LV(p.lv.sid, p.lv.acc[:-1])


def ptr_bin(E, st, op, a, b):
    if isinstance(a, MatPtr) or isinstance(b, MatPtr):
        if isinstance(a, MatPtr) and is_z3(b) and op in '+-':
            return MatPtr(a.obj, z3.simplify(a.off + b if op == '+' else a.off - b))
        if isinstance(b, MatPtr) and is_z3(a) and op == '+':
            return MatPtr(b.obj, z3.simplify(b.off + a))
        raise Undecided(f'operator {op} on a pointer into a matrix')
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.kind == 'map' and b.kind == 'mapit':
            a, b = b, a
        if a.kind == 'mapit' and b.kind == 'map':
            if b.key is not None or op not in ('==', '!='):
                raise Undecided('comparison of map iterators')
            m = E.read(st, a.lv)
            r = a.idx == m.size
            return r if op == '==' else z3.Not(r)
        if a.kind == 'map' or b.kind == 'map':
            fa = a.found if a.found is not None else z3.BoolVal(False)
            fb = b.found if b.found is not None else z3.BoolVal(False)
            if op in ('==', '!='):
                if a.key is None or b.key is None:
                    r = fa == fb if (a.key is None) != (b.key is None) else z3.BoolVal(True)
                    r = z3.Not(z3.Or(fa, fb)) if (a.key is None) != (b.key is None) else z3.BoolVal(True)
                else:
                    r = z3.Or(z3.And(fa, fb, a.key == b.key), z3.And(z3.Not(fa), z3.Not(fb)))
                return r if op == '==' else z3.Not(r)
            raise Undecided('map iterator ' + op)
        if op == '-':
            return a.idx - b.idx
        return E.cmp(op, a.idx, b.idx, _S64)
    if isinstance(a, Iter) and is_z3(b):
        b = idx64(E, b)
        return iter_step(E, st, a, b if op == '+' else -b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if op in ('==', '!='):
            if a.lv is None or b.lv is None:
                r = z3.BoolVal((a.lv is None) == (b.lv is None))
            elif a.lv.acc and a.lv.acc[-1][0] == 'i' and b.lv.acc and b.lv.acc[-1][0] == 'i' and base_of(a) == base_of(b):
                r = a.lv.acc[-1][1] == b.lv.acc[-1][1]
            elif a.lv.sid != b.lv.sid or a.lv == b.lv:
                r = z3.BoolVal(a.lv == b.lv)
            else:
                raise Undecided('pointer comparison')
            return r if op == '==' else z3.Not(r)
        if op == '-' and a.lv and b.lv and base_of(a) == base_of(b):
            return a.lv.acc[-1][1] - b.lv.acc[-1][1]
        raise Undecided('pointer ' + op)
    if isinstance(a, Ptr) and is_z3(b) and op in ('+', '-'):
        b = idx64(E, b)
        return ptr_add(E, st, a, b if op == '+' else -b)
    if isinstance(b, Ptr) and is_z3(a) and op == '+':
        return ptr_add(E, st, b, idx64(E, a))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if op in ('==', '!='):
            return E.fresh('ptreq', z3.BoolSort())
    raise Undecided(f'pointer operation {op} on {type(a).__name__}, {type(b).__name__}')


class _S:
    sg = True
    w = 64
    k = 'int'
    isint = True


_S64 = _S()


def mapelem_value(E, st, me):
    it = me[1]
    m = E.read(st, it.lv)
    val = E.read(st, it.lv.ext(('k', it.key)))
    # a pair value
    return PairVal(E.S.unpack(m.ty.args[0], it.key), val)


class PairVal:
    def __init__(self, a, b):
        self.f = {'first': a, 'second': b}


# ---------------------------------------------------------------- vectors

def ge(a, b):
    return z3.UGE(a, b) if z3.is_bv(a) else a >= b


def lt(a, b):
    return z3.ULT(a, b) if z3.is_bv(a) else a < b


def inrange(lo, i, hi):
    if z3.is_bv(i):
        return z3.And(z3.ULE(lo, i), z3.ULT(i, hi))
    return z3.And(lo <= i, i < hi)


def cap(E, st, n, what, line=None):
    """a container must not grow beyond what memory can hold; std::bad_alloc / length_error is outside the contracts"""
    st.assume(z3.ULE(n, MAXLEN) if z3.is_bv(n) else n <= MAXLEN)


def elem_default(E, st, et):
    return E.S.pack(et, E.default(st, et))


def vec_fill(E, st, ty, n, packed):
    return VV(ty, n, z3.K(E.S.index(), packed))


def vec_resize(E, st, v, n, packed):
    """packed: value of the added elements"""
    ln = z3.simplify(v.len)
    if z3.is_int_value(ln) and ln.as_long() == 0 or z3.is_bv_value(ln) and ln.as_long() == 0:
        return VV(v.ty, n, z3.K(E.S.index(), packed))
    if E.quick(st, z3.ULE(n, v.len) if z3.is_bv(n) else n <= v.len):
        return VV(v.ty, n, v.arr)
    arr = E.fresh('rsz', v.arr.sort())
    i = E.fresh('i', E.S.index())
    st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(0), i, v.len), z3.Select(arr, i) == z3.Select(v.arr, i)),
                        patterns=[z3.Select(arr, i)]))
    st.assume(z3.ForAll([i], z3.Implies(inrange(v.len, i, n), z3.Select(arr, i) == packed), patterns=[z3.Select(arr, i)]))
    return VV(v.ty, n, arr)


def vec_append(E, st, v, src_arr, start, cnt):
    """v ++ src[start, start+cnt)"""
    c = z3.simplify(cnt)
    ln = z3.simplify(v.len)
    if (z3.is_int_value(c) or z3.is_bv_value(c)) and c.as_long() <= 16:
        arr = v.arr
        for k in range(c.as_long()):
            arr = z3.Store(arr, z3.simplify(v.len + k), z3.Select(src_arr, z3.simplify(start + k)))
        arr = E.named(st, arr)
        return VV(v.ty, z3.simplify(v.len + c), arr)
    arr = E.fresh('app', v.arr.sort())
    i = E.fresh('i', E.S.index())
    st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(0), i, v.len), z3.Select(arr, i) == z3.Select(v.arr, i)),
                        patterns=[z3.Select(arr, i)]))
    st.assume(z3.ForAll([i], z3.Implies(inrange(v.len, i, v.len + cnt),
                                        z3.Select(arr, i) == z3.Select(src_arr, i - v.len + start)),
                        patterns=[z3.Select(arr, i)]))
    cap(E, st, v.len + cnt, 'append')
    return VV(v.ty, z3.simplify(v.len + cnt), arr)


def vec_eq(E, st, a, b):
    i = E.fresh('i', E.S.index())
    q = E.fresh('veq', z3.BoolSort())
    w = E.fresh('vw', E.S.index())
    body = z3.ForAll([i], z3.Implies(inrange(E.IV(0), i, a.len), z3.Select(a.arr, i) == z3.Select(b.arr, i)))
    st.assume(z3.Implies(q, z3.And(a.len == b.len, body)))
    st.assume(z3.Implies(z3.Not(q), z3.Or(a.len != b.len, z3.And(inrange(E.IV(0), w, a.len),
                                                               z3.Select(a.arr, w) != z3.Select(b.arr, w)))))
    return q


def vec_method(E, st, name, obj, v, args, fn, e):
    if v.ty.n in ('std::queue', 'std::stack'):
        name = {'push': 'push_back', 'emplace': 'emplace_back'}.get(name, name)
        if v.ty.n == 'std::queue':
            name = {'pop': 'pop_front'}.get(name, name)
        else:
            name = {'pop': 'pop_back', 'top': 'back'}.get(name, name)
    R = lambda k: E.rv(st, args[k])
    et = v.ty.args[0] if v.ty.is_pq else v.et
    if name in ('size', 'length'):
        return one(st, v.len)
    if name == 'empty':
        return one(st, v.len == 0)
    if name in ('operator[]', 'at'):
        i = idx64(E, R(0))
        if name == 'at':
            # throws out_of_range
            out = []
            ok = inrange(E.IV(0), i, v.len)
            if not E.quick(st, ok):
                s2 = st.copy()
                s2.assume(z3.Not(ok))
                if E.dry is None:
                    out.append((s2, Thrown_('out_of_range')))
                st.assume(ok)
            return [(st, elem(E, st, obj, v, i))] + out
        ln = v.len
        if v.ty.n == 'std::basic_string':
            # s[size()] is the terminating NUL (read access)
            if not E.quick(st, inrange(E.IV(0), i, v.len)):
                E.bounds(st, i, v.len + 1, 'std::basic_string::operator[]', e.get('l'))
                if not isinstance(obj, LV) or fn.get('const'):
                    return one(st, E.new_slot(st, et, z3.If(i == v.len, E.IV(0, et), z3.Select(v.arr, i))))
        E.bounds(st, i, ln, f'{v.ty.n}::operator[]', e.get('l'))
        return one(st, elem(E, st, obj, v, i))
    if name in ('front', 'back'):
        E.oblige(st, f'{name}() of a non-empty container', ge(v.len, E.IV(1)), 'bounds', e.get('l'))
        i = E.IV(0) if name == 'front' else z3.simplify(v.len - 1)
        return one(st, elem(E, st, obj, v, i))
    if name in ('begin', 'cbegin'):
        return one(st, Iter(need_lv(E, st, obj, v), E.IV(0)))
    if name in ('end', 'cend'):
        return one(st, Iter(need_lv(E, st, obj, v), v.len))
    if name in ('rbegin',):
        return one(st, Iter(need_lv(E, st, obj, v), E.IV(0), rev=True))
    if name in ('rend',):
        return one(st, Iter(need_lv(E, st, obj, v), v.len, rev=True))
    if name in ('data', 'c_str'):
        return one(st, Ptr(need_lv(E, st, obj, v).ext(('i', E.IV(0)))))
    if name in ('push_back', 'emplace_back') or (name in ('push', 'emplace') and v.ty.is_pq):
        if name == 'push_back' or name == 'push' or (len(args) == 1 and same_type(E, st, args[0], et, e)):
            x = E.retype(E.rv(st, args[0]), et) if args else E.default(st, et)
            res = [(st, x)]
        else:
            res = build(E, st, et, args, fn, e)
        out = []
        for s, x in res:
            v2 = E.read(s, obj)
            n2 = E.store(s, v2.arr, v2.len, E.S.pack(et, pairfix(E, s, et, x)))
            E.write(s, obj, VV(v2.ty, z3.simplify(v2.len + 1), n2))
            if v.ty.is_pq and E.dry is None and 'push' in E.pq_hints:     # (follows from the update)
                j = E.fresh('j', E.S.index())
                s.assume(z3.ForAll([j], z3.Implies(inrange(E.IV(0), j, v2.len), z3.Select(n2, j) == z3.Select(v2.arr, j)), patterns=[z3.Select(v2.arr, j)]))
            cap(E, s, v2.len + 1, name)
            out.append((s, None))
        return out
    if name == 'pop_back':
        E.oblige(st, 'pop_back of a non-empty container', ge(v.len, E.IV(1)), 'bounds', e.get('l'))
        E.write(st, obj, VV(v.ty, z3.simplify(v.len - 1), v.arr))
        return one(st, None)
    if name in ('push_front', 'pop_front'):
        arr = E.fresh('pf', v.arr.sort())
        i = E.fresh('i', E.S.index())
        if name == 'push_front':
            x = E.S.pack(et, R(0))
            st.assume(z3.Select(arr, E.IV(0)) == x)
            st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(1), i, v.len + 1), z3.Select(arr, i) == z3.Select(v.arr, i - 1)),
                                patterns=[z3.Select(arr, i)]))
            E.write(st, obj, VV(v.ty, v.len + 1, arr))
        else:
            E.oblige(st, 'pop_front of a non-empty container', ge(v.len, E.IV(1)), 'bounds', e.get('l'))
            st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(0), i, v.len - 1), z3.Select(arr, i) == z3.Select(v.arr, i + 1)),
                                patterns=[z3.Select(arr, i)]))
            st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(1), i, v.len), z3.Select(v.arr, i) == z3.Select(arr, i - 1)),
                                patterns=[z3.Select(v.arr, i)]))
            E.write(st, obj, VV(v.ty, v.len - 1, arr))
        return one(st, None)
    if name == 'clear':
        E.write(st, obj, VV(v.ty, E.IV(0), v.arr))
        return one(st, None)
    if name == 'resize':
        n = R(0)
        x = E.S.pack(et, R(1)) if len(args) > 1 and not isinstance(args[1], type(None)) else elem_default(E, st, et)
        cap(E, st, n, 'resize')
        E.write(st, obj, vec_resize(E, st, v, n, x))
        return one(st, None)
    if name in ('reserve', 'shrink_to_fit'):
        return one(st, None)
    if name == 'assign':
        a = R(0)
        if isinstance(a, Iter) or isinstance(a, Ptr):
            base, lo, hi = rng_of(E, st, a, R(1), e)
            E.write(st, obj, vec_append(E, st, VV(v.ty, E.IV(0), v.arr), base.arr, lo, hi - lo))
            return one(st, None)
        E.write(st, obj, VV(v.ty, a, z3.K(E.S.index(), E.S.pack(et, R(1)))))
        return one(st, None)
    if name == 'insert':
        pos = R(0)
        at_end = E.quick(st, pos.idx == v.len)
        if len(args) == 3 and isinstance(R(1), (Iter, Ptr)):
            base, lo, hi = rng_of(E, st, R(1), R(2), e)
            if not at_end:
                raise Undecided('insert of a range in the middle')
            E.write(st, obj, vec_append(E, st, v, base.arr, lo, hi - lo))
            return one(st, Iter(obj, v.len))
        if len(args) == 2 and not at_end:
            x = E.S.pack(et, R(1))
            E.oblige(st, 'insert position in range', z3.And(pos.idx >= 0, pos.idx <= v.len), 'bounds', e.get('l'))
            arr = E.fresh('ins', v.arr.sort())
            i = E.fresh('i', E.S.index())
            st.assume(z3.Select(arr, pos.idx) == x)
            st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(0), i, pos.idx), z3.Select(arr, i) == z3.Select(v.arr, i)), patterns=[z3.Select(arr, i)]))
            st.assume(z3.ForAll([i], z3.Implies(inrange(pos.idx + 1, i, v.len + 1), z3.Select(arr, i) == z3.Select(v.arr, i - 1)), patterns=[z3.Select(arr, i)]))
            E.write(st, obj, VV(v.ty, v.len + 1, arr))
            return one(st, pos)
        if len(args) == 2 and at_end:
            E.write(st, obj, VV(v.ty, v.len + 1, E.store(st, v.arr, v.len, E.S.pack(et, R(1)))))
            return one(st, pos)
        raise Undecided('insert overload')
    if name == 'erase':
        pos = R(0)
        if len(args) == 1:
            lo, cnt = pos.idx, E.IV(1)
            E.oblige(st, 'erase position in range', inrange(E.IV(0), lo, v.len), 'bounds', e.get('l'))
        else:
            lo, cnt = pos.idx, R(1).idx - pos.idx
        arr = E.fresh('ers', v.arr.sort())
        i = E.fresh('i', E.S.index())
        st.assume(z3.ForAll([i], z3.Implies(inrange(E.IV(0), i, lo), z3.Select(arr, i) == z3.Select(v.arr, i)), patterns=[z3.Select(arr, i)]))
        st.assume(z3.ForAll([i], z3.Implies(inrange(lo, i, v.len - cnt), z3.Select(arr, i) == z3.Select(v.arr, i + cnt)), patterns=[z3.Select(arr, i)]))
        E.write(st, obj, VV(v.ty, z3.simplify(v.len - cnt), arr))
        return one(st, pos)
    if name == 'fill':
        E.write(st, obj, VV(v.ty, v.len, z3.K(E.S.index(), E.S.pack(et, R(0)))))
        return one(st, None)
    if name == 'operator=':
        x = E.rv(st, args[0])
        if isinstance(x, VV):
            E.write(st, obj, VV(v.ty, x.len, x.arr))
            return one(st, obj)
    if name == 'operator+=' and v.ty.n == 'std::basic_string':
        x = E.rv(st, args[0])
        if isinstance(x, VV):
            E.write(st, obj, vec_append(E, st, v, x.arr, E.IV(0), x.len))
        elif is_z3(x):
            E.write(st, obj, VV(v.ty, v.len + 1, E.store(st, v.arr, v.len, x)))
        else:
            E.write(st, obj, E.havoc(st, v.ty, 'str'))
        return one(st, obj)
    if name == 'swap':
        o = args[0]
        w = E.read(st, o)
        E.write(st, obj, w)
        E.write(st, o, v)
        return one(st, None)
    if v.ty.is_pq and name in ('top', 'pop'):
        return pq_method(E, st, name, obj, v, fn, e)
    if name == 'get_allocator' or name == 'capacity' or name == 'max_size':
        return one(st, E.havoc(st, E.ty(e), name))
    raise Undecided(f'{v.ty.n}::{name}')


def need_lv(E, st, obj, v):
    if isinstance(obj, LV):
        return obj
    return E.new_slot(st, v.ty, v)


def elem(E, st, obj, v, i):
    if isinstance(obj, LV):
        return obj.ext(('i', i))
    return E.S.unpack(v.et, z3.Select(v.arr, i))


def same_type(E, st, a, et, e):
    x = E.rv(st, a)
    if is_z3(x):
        return E.S.scalar(et) is not None or x.sort() == E.S.sort(et)
    t = getattr(x, 'ty', None)
    return t is not None and t.s == et.s


def pairfix(E, st, et, x):
    if isinstance(x, PairVal):
        return SV(et, x.f)
    if isinstance(x, SV) and et.is_struct and x.ty is not None and x.ty.s != et.s and et.is_pair:
        return SV(et, x.f)
    if is_z3(x) and et.k == 'float' and z3.is_int(x):
        return z3.ToReal(x)
    return x


def build(E, st, t, args, fn, e):
    """construct an object of type t from the arguments of emplace"""
    vals = [E.rv(st, a) for a in args]
    if t.is_pair and len(vals) == 2:
        return one(st, SV(t, {'first': pairfix(E, st, t.args[0], vals[0]), 'second': pairfix(E, st, t.args[1], vals[1])}))
    if t.is_struct and 'rec' in t.raw:
        # a repository class: find its constructor with that many parameters
        cands = [f for f in E.P.fns.values() if f.get('ctor') and 'cls' in f and E.P.ty(f['cls']).s == t.s and len(f['p']) == len(args)
                 and f.get('ctor') not in ('copy', 'move')]
        if len(cands) == 1:
            th = E.new_slot(st, t, E.default_members(st, t))
            return [(s, r if r is not None and type(r).__name__ == 'Thrown' else E.read(s, th)) for s, r in E.inline(st, cands[0], th, args, e)]
        if t.fields() and len(t.fields()) == len(vals) and not cands:
            return one(st, SV(t, {n: x for (n, _), x in zip(t.fields(), vals)}))
    if t.is_vec and t.n == 'std::vector' and vals and is_z3(vals[0]):
        x = E.S.pack(t.velem, vals[1]) if len(vals) > 1 else elem_default(E, st, t.velem)
        return one(st, VV(t, vals[0], z3.K(E.S.index(), x)))
    if t.is_vec and not vals:
        return one(st, E.default(st, t))
    if len(vals) == 1:
        x = vals[0]
        if is_z3(x) and z3.is_int(x) and t.k == 'float':
            x = z3.ToReal(x)
        return one(st, x)
    raise Undecided(f'emplace of {t}')


def rng_of(E, st, a, b, e):
    """[a, b) over one vector: (VV, lo, hi)"""
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.kind != 'vec' or a.rev or b.rev or not a.lv == b.lv:
            raise Undecided('iterator range')
        v = E.read(st, a.lv)
        lo, hi = z3.simplify(a.idx), z3.simplify(b.idx)
    elif isinstance(a, Ptr) and isinstance(b, Ptr):
        if not base_of(a) == base_of(b):
            raise Undecided('pointer range')
        v = E.read(st, base_of(a))
        lo, hi = a.lv.acc[-1][1], b.lv.acc[-1][1]
    else:
        raise Undecided('range')
    if z3.is_bv(lo):
        g = z3.And(z3.ULE(lo, hi), z3.ULE(hi, v.len))
    else:
        g = z3.And(lo >= 0, lo <= hi, hi <= v.len)
    E.oblige(st, 'iterator range inside the container', g, 'bounds', e.get('l'))
    return v, lo, hi


# ---------------------------------------------------------------- priority queue

def pq_cmp(E, st, v, a, b):
    """symbolic comparator: formula comp(a, b) for packed elements a, b"""
    et = v.ty.args[0]
    ct = v.ty.args[2] if len(v.ty.args) > 2 and v.ty.args[2] is not None else None
    s = st.copy()
    la, lb = E.new_slot(s, et, E.S.unpack(et, a)), E.new_slot(s, et, E.S.unpack(et, b))
    if ct is None or (ct.n or '').startswith('std::less'):
        x, y = E.S.unpack(et, a), E.S.unpack(et, b)
        if et.n == 'std::pair' and all(z3.is_expr(z.f[k]) and z3.is_arith(z.f[k]) for z in (x, y) for k in ('first', 'second')):
            return z3.Or(x.f['first'] < y.f['first'], z3.And(x.f['first'] == y.f['first'], x.f['second'] < y.f['second']))
        if z3.is_expr(x) and z3.is_arith(x):
            return x < y
        raise Undecided('priority queue ordering')
    ops = ct.callops()
    fns = [E.P.fns[o['id']] for o in ops if o['id'] in E.P.fns]
    if len(fns) != 1:
        raise Undecided('priority queue comparator')
    old = E.dry
    held = st.ghost.get('pqcmp:' + v.ty.s)
    th = E.new_slot(s, ct, held if held is not None else E.default(s, ct))
    n0 = len(E.obls)
    r = E.inline(s, fns[0], th, [la, lb], {'l': None})
    del E.obls[n0:]
    if not r:
        raise Undecided('comparator paths')
    if len(r) == 1:
        return E.tobool(E.rv(r[0][0], r[0][1]))
    n = len(st.pc)
    parts = []
    for s2, x in r:
        parts.append(z3.And(*s2.pc[n:], E.tobool(E.rv(s2, x))))
    return z3.Or(parts)


def pq_method(E, st, name, obj, v, fn, e):
    key = str(v.ty.s)
    f = E.ufs.get(('pqtop', key))
    if f is None:
        f = z3.Function('pqtop<%d>' % len(E.ufs), v.arr.sort(), E.S.index(), E.S.index())
        E.ufs[('pqtop', key)] = f
    E.oblige(st, f'priority_queue::{name} of a non-empty queue', v.len >= 1, 'bounds', e.get('l'))
    k = f(v.arr, v.len)
    st.assume(inrange(E.IV(0), k, v.len))
    j = E.fresh('j', E.S.index())
    if E.dry is None:
        c = pq_cmp(E, st, v, z3.Select(v.arr, k), z3.Select(v.arr, j))
        if E.pq_guard is not None:
            c = z3.And(E.pq_guard, c)
        st.assume(z3.ForAll([j], z3.Implies(inrange(E.IV(0), j, v.len), z3.Not(c)), patterns=[z3.Select(v.arr, j)]))
    if name == 'top':
        x = E.S.unpack(v.ty.args[0], z3.Select(v.arr, k))
        E.leaf_facts(st, v.ty.args[0], x)
        return one(st, E.new_slot(st, v.ty.args[0], x))
    n = E.store(st, v.arr, k, z3.Select(v.arr, v.len - 1))
    E.write(st, obj, VV(v.ty, z3.simplify(v.len - 1), n))
    if E.dry is None and 'pop' in E.pq_hints:
        # (follows from the update) every entry but the popped one stays, the last one possibly at the popped position
        j = E.fresh('j', E.S.index())
        o = z3.Select(v.arr, j)
        st.assume(z3.ForAll([j], z3.Implies(inrange(E.IV(0), j, v.len), z3.Or(j == k, z3.And(lt(j, v.len - 1), z3.Select(n, j) == o), z3.And(lt(k, v.len - 1), z3.Select(n, k) == o))), patterns=[o]))
    return one(st, None)


# ---------------------------------------------------------------- maps and sets

def map_find(E, st, obj, v, key):
    k = E.S.pack(v.ty.args[0], key)
    return Iter(obj, kind='map', key=k, found=z3.Select(v.dom, k))


def _unused_map_put(E, st, obj, v, k, packed):
    had = z3.Select(v.dom, k)
    E.write(st, obj, MV(v.ty, E.store(st, v.dom, k, z3.BoolVal(True)), z3.Store(v.val, k, packed),
                        z3.If(had, v.size, v.size + 1)))


def map_method(E, st, name, obj, v, args, fn, e):
    R = lambda k: E.rv(st, args[k])
    if name == 'size':
        return one(st, v.size)
    if name == 'empty':
        return one(st, v.size == 0)
    if name in ('find',):
        return one(st, map_find(E, st, need_lv(E, st, obj, v), v, R(0)))
    if name in ('end', 'cend'):
        return one(st, Iter(obj, kind='map', key=None, found=z3.BoolVal(False)))
    if name in ('begin', 'cbegin'):
        E.map_order(st, v)
        return one(st, Iter(need_lv(E, st, obj, v), E.IV(0), kind='mapit'))
    if name == 'count':
        k = E.S.pack(v.ty.args[0], R(0))
        return one(st, z3.If(z3.Select(v.dom, k), E.IV(1), E.IV(0)))
    if name in ('operator[]',):
        k = E.S.pack(v.ty.args[0], R(0))
        d = elem_default(E, st, v.ty.args[1])
        had = z3.Select(v.dom, k)
        if not E.quick(st, had):
            E.write(st, obj, MV(v.ty, E.store(st, v.dom, k, z3.BoolVal(True)),
                                E.store(st, v.val, k, z3.If(had, z3.Select(v.val, k), d)), z3.If(had, v.size, v.size + 1)))
        return one(st, obj.ext(('k', k)))
    if name == 'at':
        k = E.S.pack(v.ty.args[0], R(0))
        had = z3.Select(v.dom, k)
        out = []
        if not E.quick(st, had):
            s2 = st.copy()
            s2.assume(z3.Not(had))
            if E.dry is None:
                out.append((s2, Thrown_('out_of_range')))
            st.assume(had)
        return [(st, obj.ext(('k', k)))] + out
    if name in ('insert', 'emplace'):
        if v.ty.is_set:
            k = E.S.pack(v.ty.args[0], R(0))
            had = z3.Select(v.dom, k)
            E.write(st, obj, MV(v.ty, E.store(st, v.dom, k, z3.BoolVal(True)), v.val, z3.If(had, v.size, v.size + 1)))
            return one(st, Opaque('insert'))
        p = R(0)
        if len(args) == 2:
            kx, vx = R(0), R(1)
        elif isinstance(p, (SV, PairVal)):
            kx, vx = p.f['first'], p.f['second']
        else:
            raise Undecided('map insert')
        k = E.S.pack(v.ty.args[0], kx)
        x = E.S.pack(v.ty.args[1], vx)
        had = z3.Select(v.dom, k)
        E.write(st, obj, MV(v.ty, E.store(st, v.dom, k, z3.BoolVal(True)),
                            E.store(st, v.val, k, z3.If(had, z3.Select(v.val, k), x)), z3.If(had, v.size, v.size + 1)))
        it = Iter(obj, kind='map', key=k, found=z3.BoolVal(True))
        return one(st, PairVal(it, z3.Not(had)))
    if name == 'erase':
        k = R(0)
        k = k.key if isinstance(k, Iter) else E.S.pack(v.ty.args[0], k)
        had = z3.Select(v.dom, k)
        E.write(st, obj, MV(v.ty, E.store(st, v.dom, k, z3.BoolVal(False)), v.val, z3.If(had, v.size - 1, v.size)))
        return one(st, Opaque('erase'))
    if name == 'clear':
        ks = E.S.sort(v.ty.args[0])
        E.write(st, obj, MV(v.ty, z3.K(ks, z3.BoolVal(False)), v.val, E.IV(0)))
        return one(st, None)
    if name == 'operator=':
        x = R(0)
        E.write(st, obj, x)
        return one(st, obj)
    if name in ('reserve', 'rehash', 'max_load_factor'):
        return one(st, None)
    if name == 'get_allocator':
        return one(st, Opaque('alloc'))
    raise Undecided(f'{v.ty.n}::{name}')


# ---------------------------------------------------------------- Eigen

def mat_map(E, f, v):
    if isinstance(v, FM):
        return FM([[f(x) for x in row] for row in v.e], v.ty)
    raise Undecided('elementwise operation on a dynamic matrix')


def sqrt(E, st, x):
    xs = z3.simplify(x)
    if z3.is_fp(x):
        return z3.fpSqrt(z3.RNE(), x)
    r = E.fresh('sqrt', z3.RealSort())
    if sum_of_squares(x):
        st.assume(r >= 0, r * r == x)
    else:
        st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def sum_of_squares(x):
    if z3.is_rational_value(x) or z3.is_int_value(x):
        return x.numerator_as_long() >= 0 if z3.is_rational_value(x) else x.as_long() >= 0
    if z3.is_add(x):
        return all(sum_of_squares(c) for c in x.children())
    return z3.is_mul(x) and len(x.children()) == 2 and x.arg(0).eq(x.arg(1))


def fabs(x):
    if z3.is_fp(x):
        return z3.fpAbs(x)
    return z3.If(x >= 0, x, -x)


def kind(v):
    return v.ty.n.split('::')[-1] if getattr(v, 'ty', None) is not None else 'Matrix'


def rotation_of(q):
    """rotation matrix of a quaternion, as Eigen computes it (a rotation exactly for unit quaternions)"""
    x, y, z, w = [r[0] for r in q.e]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def homogeneous(v):
    """4x4 matrix of a transform, translation or quaternion; None for anything else"""
    k = kind(v)
    R0, R1 = z3.RealVal(0), z3.RealVal(1)
    if k == 'Transform':
        return v.e
    if k == 'Translation':
        n = v.r
        return [[(R1 if i == j else R0) for j in range(n)] + [v.e[i][0]] for i in range(n)] + [[R0] * n + [R1]]
    if k == 'AngleAxis':
        raise Undecided('an angle-axis as a homogeneous matrix')
    if k == 'Quaternion':
        m = rotation_of(v)
        return [m[i] + [R0] for i in range(3)] + [[R0, R0, R0, R1]]
    return None


def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by, aw * by + ay * bw + az * bx - ax * bz, aw * bz + az * bw + ax * by - ay * bx, aw * bw - ax * bx - ay * by - az * bz]


def aa_quat(E, st, v):
    """x y z w of the quaternion of an angle-axis"""
    h = v.e[3][0] / 2
    s, c = [trig_at(E, st, n, h) for n in ('sin', 'cos')]
    return [v.e[0][0] * s, v.e[1][0] * s, v.e[2][0] * s, c]


def trig_at(E, st, name, x):
    f = E.ufs.setdefault(name, z3.Function(name, z3.RealSort(), z3.RealSort()))
    if getattr(E, 'trig', False):
        o = E.ufs.setdefault('cos' if name == 'sin' else 'sin', z3.Function('cos' if name == 'sin' else 'sin', z3.RealSort(), z3.RealSort()))
        st.assume(f(x) * f(x) + o(x) * o(x) == 1)
    return f(x)


def is_rotation(m):
    n = len(m)
    rows = [sum([m[i][k] * m[j][k] for k in range(n)], z3.RealVal(0)) == (1 if i == j else 0) for i in range(n) for j in range(i, n)]
    return z3.And(*rows, det(m) == 1)


def quat_of_matrix(E, st, m, t):
    """a unit quaternion of the rotation, if m is one; otherwise nothing is known"""
    q = [E.fresh('quat', z3.RealSort()) for _ in range(4)]
    v = FM([[x] for x in q], t)
    r = rotation_of(v)
    st.assume(z3.Implies(is_rotation(m.e), z3.And(sum([x * x for x in q], z3.RealVal(0)) == 1, *[r[i][j] == m.e[i][j] for i in range(3) for j in range(3)])))
    return v


class Comma:
    """a comma initializer: the next cell of the target"""

    def __init__(self, lv, row, col, h):
        self.lv, self.row, self.col, self.h = lv, row, col, h


def comma(E, st, ci, x, e):
    m = E.read(st, ci.lv)
    f = fixed_of(m)
    if f is None:
        raise Undecided('comma initializer of a dynamic matrix')
    item = fixed_of(x) if isinstance(x, (FM, DM)) else FM([[x]])
    if item is None:
        raise Undecided('comma initializer from a dynamic matrix')
    row, col, h = ci.row, ci.col, ci.h
    if col == f.c:
        row, col, h = row + h, 0, item.r
    ok = row + item.r <= f.r and col + item.c <= f.c and h == item.r
    E.oblige(st, 'comma initializer fits', z3.BoolVal(ok), 'bounds', e.get('l'))
    if not ok:
        raise Undecided('comma initializer does not fit')
    cells = [list(r) for r in f.e]
    for i in range(item.r):
        for j in range(item.c):
            v = item.e[i][j]
            cells[row + i][col + j] = z3.ToReal(v) if z3.is_int(v) and z3.is_real(cells[row + i][col + j]) else v
    r = FM(cells, f.ty)
    E.write(st, ci.lv, r if isinstance(m, FM) else E.as_dynamic(r, m))
    return one(st, Comma(ci.lv, row, col + item.c, h))


def euler_angles(E, st, v, i, j, k):
    """angles whose rotations about the axes i, j, k compose to the matrix, if it is a rotation"""
    if v.r != 3 or v.c != 3 or None in (i, j, k) or i == j or j == k:
        raise Undecided('euler angles')
    a = [E.fresh('euler', z3.RealSort()) for _ in range(3)]
    m = None
    for ax, x in zip((i, j, k), a):
        r = axis_rotation(ax, trig_at(E, st, 'sin', x), trig_at(E, st, 'cos', x))
        m = FM(r) if m is None else matmul(m, FM(r))
    st.assume(z3.Implies(is_rotation(v.e), z3.And(*[m.e[x][y] == v.e[x][y] for x in range(3) for y in range(3)])))
    return FM([[x] for x in a])


def axis_rotation(ax, s, c):
    i, j = (ax + 1) % 3, (ax + 2) % 3
    m = [[z3.RealVal(1 if p == q else 0) for q in range(3)] for p in range(3)]
    m[i][i] = m[j][j] = c
    m[i][j], m[j][i] = -s, s
    return m


def as_kind(v, t, E=None, st=None):
    """conversion of a fixed-size value to another Eigen kind"""
    tk = t.n.split('::')[-1]
    if tk == 'Quaternion' and kind(v) == 'AngleAxis' and E is not None:
        return FM([[x] for x in aa_quat(E, st, v)], t)
    if tk == 'Quaternion' and kind(v) == 'Matrix' and v.r == 3 and v.c == 3 and E is not None:
        return quat_of_matrix(E, st, v, t)
    if 'AngleAxis' in (tk, kind(v)) and tk != kind(v):
        raise Undecided(f'{tk} from {kind(v)}')
    if tk == kind(v) or (tk not in ('Transform',) and kind(v) == 'Matrix'):
        return None
    if tk == 'Transform':
        m = homogeneous(v)
        if m is not None:
            return FM(m, t)
        n = t.mshape[0]
        last_row = [z3.RealVal(1 if j == n - 1 else 0) for j in range(n)]
        if kind(v) == 'Matrix' and (v.r, v.c) == (n, n):
            if all(z3.is_rational_value(z3.simplify(x)) and z3.simplify(x).eq(y) for x, y in zip(v.e[-1], last_row)):
                return FM(v.e[:-1] + [last_row], t)
        if kind(v) == 'Matrix' and (v.r, v.c) == (n - 1, n - 1):
            return FM([r + [z3.RealVal(0)] for r in v.e] + [last_row], t)
        raise Undecided('transform from a matrix')
    if tk in ('Matrix',) and kind(v) == 'Quaternion':
        return FM(rotation_of(v), t)
    if tk == 'Quaternion':
        raise Undecided('quaternion from a matrix')
    return None


def affine(m):
    return FM([[z3.simplify(x) for x in row] for row in m[:-1]] + [m[-1]])


def transform_product(E, st, v, w, rt):
    a, b = homogeneous(v), homogeneous(w) if isinstance(w, FM) else None
    n = len(a) - 1
    if b is not None:
        m = matmul(FM(a), FM(b)).e
        m = [[z3.simplify(x) for x in row] for row in m[:-1]] + [a[-1]]
        return FM(m, rt if rt is not None and rt.is_mat and rt.n == 'Eigen::Transform' else v.ty)
    if isinstance(w, FM) and w.r == n + 1:
        return FM(matmul(FM(a), w).e)
    if isinstance(w, FM) and w.r == n:
        return FM([[sum([a[i][k] * w.e[k][j] for k in range(n)], z3.RealVal(0)) + a[i][n] for j in range(w.c)] for i in range(n)])
    raise Undecided('transform times a matrix of another shape')


def transform_method(E, st, name, obj, v, args, fn, e):
    """contracts of Eigen::Transform, Translation and Quaternion (None: as for a matrix)"""
    k = kind(v)
    R = lambda i: E.rv(st, args[i])
    n = v.r - 1
    if k == 'AngleAxis':
        if name == 'operator*' and args:
            w = R(0)
            if isinstance(w, FM) and kind(w) in ('AngleAxis', 'Quaternion'):
                b = aa_quat(E, st, w) if kind(w) == 'AngleAxis' else [r[0] for r in w.e]
                return one(st, FM([[x] for x in qmul(aa_quat(E, st, v), b)], E.ty(e)))
        if name == 'angle' and not args:
            return one(st, v.e[3][0])
        if name == 'axis' and not args:
            return one(st, FM(v.e[:3]))
        raise Undecided('angle-axis ' + name)
    if name == 'operator*' and args:
        w = R(0)
        if k == 'Quaternion' and isinstance(w, FM) and kind(w) == 'AngleAxis':
            return one(st, FM([[x] for x in qmul([r[0] for r in v.e], aa_quat(E, st, w))], v.ty))
        if k == 'Quaternion' and isinstance(w, FM) and kind(w) == 'Quaternion':
            return one(st, FM([[x] for x in qmul([r[0] for r in v.e], [r[0] for r in w.e])], v.ty))
        if k == 'Quaternion' and isinstance(w, FM) and kind(w) == 'Matrix':
            return one(st, matmul(FM(rotation_of(v)), w))
        if k == 'Translation' and isinstance(w, FM) and kind(w) == 'Translation':
            return one(st, FM([[a[0] + b[0]] for a, b in zip(v.e, w.e)], v.ty))
        if isinstance(w, FM):
            return one(st, transform_product(E, st, v, w, E.ty(e)))
        raise Undecided(f'{k} times {type(w).__name__}')
    if name == 'inverse':
        if k == 'Translation':
            return one(st, FM([[-a[0]] for a in v.e], v.ty))
        if k == 'Transform' and v.ty.args[2] == 1:       # isometry: transpose of the rotation
            rt = [[v.e[j][i] for j in range(n)] for i in range(n)]
            t = [-sum([rt[i][j] * v.e[j][n] for j in range(n)], z3.RealVal(0)) for i in range(n)]
            return one(st, FM([rt[i] + [t[i]] for i in range(n)] + [v.e[n]], v.ty))
        if k == 'Quaternion':
            x, y, z, w = [r[0] for r in v.e]
            n2 = E.named(st, x * x + y * y + z * z + w * w)
            return one(st, FM([[z3.If(n2 > 0, a / n2, 0)] for a in (-x, -y, -z, w)], v.ty))
        raise Undecided(f'inverse of a general {k}')
    if k == 'Transform':
        if name == 'translation':
            return one(st, obj.ext(('blk', 0, n, n, 1)) if isinstance(obj, LV) else FM([[v.e[i][n]] for i in range(n)]))
        if name in ('linear', 'rotation'):
            if name == 'rotation' and v.ty.args[2] != 1:
                raise Undecided('rotation of a general transform')
            return one(st, obj.ext(('blk', 0, 0, n, n)) if isinstance(obj, LV) and name == 'linear' else FM([[v.e[i][j] for j in range(n)] for i in range(n)]))
        if name == 'matrix':
            return one(st, obj.ext(('blk', 0, 0, n + 1, n + 1)) if isinstance(obj, LV) else FM(v.e))
        if name == 'setIdentity' and isinstance(obj, LV):
            E.write(st, obj, FM([[z3.RealVal(1 if i == j else 0) for j in range(n + 1)] for i in range(n + 1)], v.ty))
            return one(st, obj)
        if name in ('translate', 'pretranslate', 'rotate', 'prerotate', 'setIdentity', 'scale'):
            raise Undecided('transform ' + name)
    if k == 'Translation' and name in ('translation', 'vector'):
        return one(st, FM(v.e))
    if k == 'Quaternion':
        if name == 'coeffs':
            return one(st, FM(v.e))
        if name == 'conjugate':
            return one(st, FM([[-v.e[0][0]], [-v.e[1][0]], [-v.e[2][0]], [v.e[3][0]]], v.ty))
        if name == 'toRotationMatrix':
            return one(st, FM(rotation_of(v)))
        if name == 'vec':
            return one(st, FM(v.e[:3]))
        if name in ('norm', 'squaredNorm', 'dot', 'x', 'y', 'z', 'w', 'operator='):
            return None
        raise Undecided('quaternion ' + name)
    return None


def FA(*a):
    import vc
    return vc.FA(*a)


def lit(x):
    x = z3.simplify(x)
    return x.as_long() if z3.is_int_value(x) else None


def fixed_of(v):
    """a dynamic matrix of literal size, as a fixed one (None: its size is not known)"""
    if isinstance(v, FM):
        return v
    r, c = lit(v.rows), lit(v.cols)
    if r is None or c is None or r * c > 64:
        return None
    return FM([[z3.simplify(z3.Select(z3.Select(v.arr, i), j)) for j in range(c)] for i in range(r)])


# the dot product of two dynamic vectors is a defined sum (check C27 proves by induction the facts used here: it is bilinear,
# symmetric, not negative on equal arguments, and bounded by Cauchy-Schwarz); an element-wise sum or multiple of vectors remembers
# what it is a combination of, so products of combinations are expanded into products of the vectors they are built from

def expand(E, arr):
    lc = E.lincomb.get(arr.get_id())
    if lc is None:
        if z3.is_K(arr):
            x = arr.arg(0)
            if z3.is_K(x) and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() == 0:
                return []
        return [(z3.RealVal(1), arr)]
    return lc[1]


def vdot(E, st, x, y, n):
    f = E.ufs.setdefault('vdot', z3.Function('vdot', x.sort(), x.sort(), z3.IntSort(), z3.RealSort()))

    def base(a, b):
        if b.get_id() in E.products or a.get_id() in E.products:      # the sum of a_i w_i b_i, in any order of the factors
            if b.get_id() in E.products:
                a, b = b, a
            if b.get_id() in E.products:
                raise Undecided('dot product of two products')
            return tdot(E, st, *E.products[a.get_id()][1:], b, n)
        if a.get_id() > b.get_id():
            a, b = b, a
        r = f(a, b, n)
        st.assume(f(a, a, n) >= 0)
        if not a.eq(b):
            st.assume(f(b, b, n) >= 0, f(b, a, n) == r, r * r <= f(a, a, n) * f(b, b, n))
        return r
    r = z3.simplify(z3.Sum([z3.RealVal(0)] + [c * d * base(a, b) for c, a in expand(E, x) for d, b in expand(E, y)]))
    if x.eq(y):
        st.assume(r >= 0)
    return r


def tdot(E, st, x, w, y, n):
    """the sum of x_i w_i y_i"""
    f = E.ufs.setdefault('tdot', z3.Function('tdot', x.sort(), x.sort(), x.sort(), z3.IntSort(), z3.RealSort()))
    return f(*sorted((x, w, y), key=lambda a: a.get_id()), n)


def dm_combination(E, st, v, parts, what='comb'):
    """element-wise sum of coefficient times matrix, all of the size of v"""
    arr = E.fresh(what, v.arr.sort())
    i, j = z3.Ints('i j')
    el = lambda a, i, j: z3.Select(z3.Select(a, i), j)
    if lit(v.cols) == 1:
        st.assume(FA([i], z3.Implies(z3.And(0 <= i, i < v.rows), el(arr, i, z3.IntVal(0)) == z3.Sum([c * el(a, i, z3.IntVal(0)) for c, a in parts])), el(arr, i, z3.IntVal(0))))
        lc = []
        for c, a in parts:
            lc += [(c * d, b) for d, b in expand(E, a)]
        E.lincomb[arr.get_id()] = (arr, lc)
    else:
        st.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < v.rows, 0 <= j, j < v.cols), el(arr, i, j) == z3.Sum([c * el(a, i, j) for c, a in parts])), el(arr, i, j)))
    return DM(v.rows, v.cols, arr, v.ty)


def dm_map(E, st, v, rel, what='map'):
    """a matrix of the size of v whose elements r satisfy rel(i, j, r)"""
    arr = E.fresh(what, v.arr.sort())
    i, j = z3.Ints('i j')
    el = z3.Select(z3.Select(arr, i), j)
    if lit(v.cols) == 1:
        el = z3.Select(z3.Select(arr, i), z3.IntVal(0))
        st.assume(FA([i], z3.Implies(z3.And(0 <= i, i < v.rows), rel(i, z3.IntVal(0), el)), el))
    else:
        st.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < v.rows, 0 <= j, j < v.cols), rel(i, j, el)), el))
    return DM(v.rows, v.cols, arr, v.ty)


class ColW:
    """m.colwise()"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m


def colwise_method(E, st, name, v, args, e):
    m = v.m
    r = lit(m.rows) if isinstance(m, DM) else None
    if r is None or r > 16:
        raise Undecided('columns of a matrix without a fixed number of rows')
    j = z3.Int('j')
    at = lambda a, i: z3.Select(z3.Select(a, i), j)
    if name in ('operator-', 'operator+'):
        p = E.rv(st, args[0])
        p = fixed_of(p) if isinstance(p, (FM, DM)) else None
        if p is None or p.r * p.c != r:
            raise Undecided('column of another size')
        xs = [x for row in p.e for x in row]
        arr = E.fresh('cols', m.arr.sort())
        for i in range(r):
            st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < m.cols), at(arr, i) == (at(m.arr, i) - xs[i] if name == 'operator-' else at(m.arr, i) + xs[i])), at(arr, i)))
        return one(st, DM(m.rows, m.cols, arr, m.ty))
    if name in ('squaredNorm', 'sum'):
        arr = E.fresh('colnorm', m.arr.sort())
        term = z3.Sum([at(m.arr, i) * at(m.arr, i) if name == 'squaredNorm' else at(m.arr, i) for i in range(r)])
        st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < m.cols), at(arr, 0) == term), at(arr, 0)))
        return one(st, DM(z3.IntVal(1), m.cols, arr))
    raise Undecided('colwise ' + name)


def dm_method(E, st, name, obj, v, args, fn, e):
    """contracts of Eigen on a matrix of dynamic size"""
    R = lambda k: E.rv(st, args[k])
    line = e.get('l')
    el = lambda m, i, j: z3.Select(z3.Select(m.arr, i), j)
    one_ = z3.RealVal(1)

    def same(w, what):
        if isinstance(w, FM):
            w = E.as_dynamic(w, v)
        if not isinstance(w, DM):
            raise Undecided(f'Eigen {name} with {type(w).__name__}')
        E.oblige(st, 'Eigen sizes agree in ' + what, z3.And(w.rows == v.rows, w.cols == v.cols), 'bounds', line)
        return w
    if name in ('operator+', 'operator-') and args:
        w = same(R(0), name)
        return one(st, dm_combination(E, st, v, [(one_, v.arr), (one_ if name == 'operator+' else -one_, w.arr)]))
    if name == 'operator-':
        return one(st, dm_combination(E, st, v, [(-one_, v.arr)]))
    if name in ('operator*', 'operator/') and is_z3(R(0)) and not z3.is_bool(R(0)):
        w = toreal(R(0))
        if name == 'operator/':
            E.oblige(st, 'division by zero', w != 0, 'arith', line)
            w = 1 / w
        return one(st, dm_combination(E, st, v, [(w, v.arr)]))
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        r = dm_method(E, st, name[:-1], v, v, args, fn, e)[0][1]
        E.write(st, obj, r)
        return one(st, obj)
    if name in ('dot', 'squaredNorm', 'norm', 'normalized', 'normalize'):
        if lit(v.cols) != 1:
            raise Undecided(f'Eigen {name} of a dynamic matrix ({v.rows} x {v.cols})')
        w = same(R(0), 'dot') if name == 'dot' else v
        d = vdot(E, st, v.arr, w.arr, v.rows)
        if name in ('dot', 'squaredNorm'):
            return one(st, d)
        n = sqrt(E, st, d)
        if name == 'norm':
            return one(st, n)
        r = dm_combination(E, st, v, [(z3.If(n > 0, 1 / n, one_), v.arr)])
        if name == 'normalized':
            return one(st, r)
        E.write(st, obj, r)
        return one(st, obj)
    if name in ('cwiseProduct', 'cwiseMin', 'cwiseMax'):
        w = same(R(0), name)
        g = dict(cwiseProduct=lambda a, b: a * b, cwiseMin=lambda a, b: z3.If(a <= b, a, b), cwiseMax=lambda a, b: z3.If(a >= b, a, b))[name]
        r = dm_map(E, st, v, lambda i, j, r: r == g(el(v, i, j), el(w, i, j)), name)
        if name == 'cwiseProduct' and lit(v.cols) == 1:
            E.products[r.arr.get_id()] = (r.arr, v.arr, w.arr)
        return one(st, r)
    if name == 'cwiseAbs':
        return one(st, dm_map(E, st, v, lambda i, j, r: r == z3.If(el(v, i, j) >= 0, el(v, i, j), -el(v, i, j)), name))
    if name == 'cwiseSqrt':
        return one(st, dm_map(E, st, v, lambda i, j, r: z3.Implies(el(v, i, j) >= 0, z3.And(r >= 0, r * r == el(v, i, j))), name))
    if name == 'colwise':
        return one(st, ColW(v))
    if name in ('minCoeff', 'maxCoeff') and lit(v.cols) == 1 and len(args) <= 1:
        E.oblige(st, 'Eigen extreme of a non-empty vector', v.rows > 0, 'bounds', line)
        k = E.fresh('extreme', z3.IntSort())
        j = z3.Int('j')
        x = el(v, k, 0)
        st.assume(0 <= k, k < v.rows, FA([j], z3.Implies(z3.And(0 <= j, j < v.rows), x <= el(v, j, 0) if name == 'minCoeff' else x >= el(v, j, 0)), el(v, j, 0)))
        if args:
            p = R(0)
            if not isinstance(p, Ptr):
                raise Undecided('index of the extreme element')
            E.write(st, p.lv, k)
        return one(st, x)
    if name in ('col', 'row'):
        k = R(0)
        E.bounds(st, k, v.cols if name == 'col' else v.rows, f'Eigen {name} index', line)
        n = lit(v.rows if name == 'col' else v.cols)
        if n is not None and n <= 16 and not isinstance(obj, LV):
            return one(st, FM([[el(v, i, k)] for i in range(n)]) if name == 'col' else FM([[el(v, k, i) for i in range(n)]]))
        if n is not None and n <= 16:
            return one(st, obj.ext(('line', name, k, n)))
        if name == 'col':
            return one(st, obj.ext(('dcol', k)) if isinstance(obj, LV) else E.getcol(v, k))
        raise Undecided('row of a dynamic matrix')
    if name in ('segment', 'head', 'tail') and lit(v.cols) == 1:
        n = block_dims(E, e)
        if n is None:
            n = (lit(R(len(args) - 1)), 1)
            start = R(0) if name == 'segment' else z3.IntVal(0) if name == 'head' else v.rows - R(0)
        else:
            start = R(0) if name == 'segment' else z3.IntVal(0) if name == 'head' else v.rows - n[0]
        if n[0] is None or n[0] > 64:
            raise Undecided('segment of unknown length')
        E.oblige(st, 'Eigen segment in range', z3.And(start >= 0, start + n[0] <= v.rows), 'bounds', line)
        if isinstance(obj, LV):
            return one(st, obj.ext(('line', 'seg', start, n[0])))
        return one(st, FM([[el(v, start + i, 0)] for i in range(n[0])]))
    if name == 'isApprox':
        b = E.fresh('approx', z3.BoolSort())
        w = same(R(0), name)
        i, j = z3.Ints('i j')
        st.assume(z3.Implies(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < v.rows, 0 <= j, j < v.cols), el(v, i, j) == el(w, i, j))), b))
        return one(st, b)
    if name in ('array', 'matrix', 'eval', 'noalias', 'derived'):
        return one(st, obj if isinstance(obj, LV) else v)
    return None


def block_dims(E, e):
    """(rows, columns) of a fixed-size block expression, from its type"""
    t = E.ty(e).deref()
    n = (t.n or '').split('::')[-1]
    if n == 'VectorBlock':
        m = t.args[1]
        return (m, 1) if isinstance(m, int) and m > 0 else None
    if n == 'Block':
        r, c = t.args[1], t.args[2]
        return (r, c) if isinstance(r, int) and isinstance(c, int) and r > 0 and c > 0 else None
    return None


def mat_method(E, st, name, obj, v, args, fn, e):
    R = lambda k: E.rv(st, args[k])
    if kind(v) in ('Transform', 'Translation', 'Quaternion', 'AngleAxis'):
        r = transform_method(E, st, name, obj, v, args, fn, e)
        if r is not None:
            return r
    fixed = isinstance(v, FM)
    rows = z3.IntVal(v.r) if fixed else v.rows
    cols = z3.IntVal(v.c) if fixed else v.cols
    if name == 'operator<<' and isinstance(obj, LV) and len(args) == 1:
        x = R(0)
        return comma(E, st, Comma(obj, 0, 0, x.r if isinstance(x, FM) else fixed_of(x).r if isinstance(x, DM) and fixed_of(x) is not None else 1), x, e)
    if name == 'eulerAngles' and isinstance(v, FM) and len(args) == 3:
        return one(st, euler_angles(E, st, v, *[lit(R(x)) for x in range(3)]))
    if name == 'data' and not args:
        return one(st, MatPtr(obj if isinstance(obj, LV) else v))
    if name in ('rows',):
        return one(st, rows)
    if name in ('cols',):
        return one(st, cols)
    if name == 'size':
        return one(st, rows * cols if not z3.is_int_value(z3.simplify(cols)) else z3.simplify(rows * cols))
    if name in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
        if len(args) == 2:
            i, j = R(0), R(1)
        else:
            i, j = R(0), z3.IntVal(0)
            if fixed and v.c > 1 and v.r == 1:
                i, j = z3.IntVal(0), i
            elif not fixed and z3.is_int_value(z3.simplify(rows)) and z3.simplify(rows).as_long() == 1:
                i, j = z3.IntVal(0), i
        E.bounds(st, i, rows, 'Eigen row index', e.get('l'))
        E.bounds(st, j, cols, 'Eigen column index', e.get('l'))
        if isinstance(obj, LV):
            return one(st, obj.ext(('m', i, j)))
        return one(st, E.mat_get(v, i, j))
    if name in ('x', 'y', 'z', 'w') and fixed:
        k = 'xyzw'.index(name)
        rc = (k, 0) if v.c == 1 else (0, k)
        if isinstance(obj, LV):
            return one(st, obj.ext(('m', z3.IntVal(rc[0]), z3.IntVal(rc[1]))))
        return one(st, v.e[rc[0]][rc[1]])
    if name in ('setZero', 'fill', 'setConstant', 'setOnes'):
        x = z3.RealVal(0) if name == 'setZero' else z3.RealVal(1) if name == 'setOnes' else R(len(args) - 1)
        if fixed:
            E.write(st, obj, FM([[x] * v.c for _ in range(v.r)], v.ty))
        else:
            E.write(st, obj, DM(v.rows, v.cols, z3.K(z3.IntSort(), z3.K(z3.IntSort(), x)), v.ty))
        return one(st, obj)
    if name in ('resize',):
        r, c = (R(0), R(1)) if len(args) == 2 else (R(0), z3.IntVal(1))
        E.write(st, obj, DM(r, c, E.fresh('emat', v.arr.sort()), v.ty))
        return one(st, None)
    if name == 'operator=':
        x = R(0)
        if isinstance(x, FM) and v.ty is not None:
            y = as_kind(x, v.ty)
            x = x if y is None else y
        if isinstance(x, (FM, DM)):
            x = E.retype(x, v.ty) if v.ty is not None else x
            E.write(st, obj, x)
            return one(st, obj)
    if fixed:
        if args and name in ('dot', 'cross', 'operator+', 'operator-', 'operator+=', 'operator-=', 'cwiseProduct', 'isApprox') and isinstance(R(0), DM):
            w = R(0)
            E.oblige(st, 'Eigen sizes agree', z3.And(w.rows == v.r, w.cols == v.c), 'bounds', e.get('l'))
            args = [FM([[z3.simplify(z3.Select(z3.Select(w.arr, i), j)) for j in range(v.c)] for i in range(v.r)])]
        if name in ('dot',):
            w = R(0)
            return one(st, sum([a * b for ra, rb in zip(v.e, w.e) for a, b in zip(ra, rb)], z3.RealVal(0)))
        if name == 'squaredNorm':
            return one(st, sum([a * a for ra in v.e for a in ra], z3.RealVal(0)))
        if name == 'norm':
            return one(st, sqrt(E, st, sum([a * a for ra in v.e for a in ra], z3.RealVal(0))))
        if name == 'sum':
            return one(st, sum([a for ra in v.e for a in ra], z3.RealVal(0)))
        if name in ('transpose',):
            return one(st, FM([[v.e[i][j] for i in range(v.r)] for j in range(v.c)]))
        if name == 'cross':
            a, b = [r[0] for r in v.e], [r[0] for r in R(0).e]
            return one(st, FM([[a[1] * b[2] - a[2] * b[1]], [a[2] * b[0] - a[0] * b[2]], [a[0] * b[1] - a[1] * b[0]]]))
        if name in ('operator+', 'operator-') and args:
            w = R(0)
            g = (lambda a, b: a + b) if name == 'operator+' else (lambda a, b: a - b)
            return one(st, FM([[g(a, b) for a, b in zip(ra, rb)] for ra, rb in zip(v.e, w.e)], v.ty))
        if name == 'operator-':
            return one(st, FM([[-a for a in ra] for ra in v.e], v.ty))
        if name in ('operator*', 'operator/'):
            w = R(0)
            if isinstance(w, FM):
                return one(st, matmul(v, w))
            if name == 'operator/':
                E.oblige(st, 'division by zero', w != 0, 'arith', e.get('l'))
                return one(st, FM([[a / w for a in ra] for ra in v.e], v.ty))
            return one(st, FM([[a * w for a in ra] for ra in v.e], v.ty))
        if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            r = mat_method(E, st, name[:-1], v, v, args, fn, e)[0][1]
            E.write(st, obj, FM(r.e, v.ty))
            return one(st, obj)
        if name == 'col':
            j = z3.simplify(R(0)).as_long()
            return one(st, FM([[v.e[i][j]] for i in range(v.r)]))
        if name == 'row':
            i = z3.simplify(R(0)).as_long()
            return one(st, FM([list(v.e[i])]))
        if name == 'cwiseAbs':
            return one(st, FM([[z3.If(a >= 0, a, -a) for a in ra] for ra in v.e], v.ty))
        if name in ('cwiseProduct', 'cwiseQuotient', 'cwiseMin', 'cwiseMax') and args and isinstance(R(0), FM):
            w = R(0)
            if name == 'cwiseQuotient':
                E.oblige(st, 'division by zero', z3.And(*[b != 0 for rb in w.e for b in rb]), 'arith', e.get('l'))
            g = dict(cwiseProduct=lambda a, b: a * b, cwiseQuotient=lambda a, b: a / b, cwiseMin=lambda a, b: z3.If(a <= b, a, b), cwiseMax=lambda a, b: z3.If(a >= b, a, b))[name]
            return one(st, FM([[g(a, b) for a, b in zip(ra, rb)] for ra, rb in zip(v.e, w.e)], v.ty))
        if name in ('maxCoeff', 'minCoeff') and not args:
            xs = [a for ra in v.e for a in ra]
            r = xs[0]
            for a in xs[1:]:
                r = z3.If(a > r, a, r) if name == 'maxCoeff' else z3.If(a < r, a, r)
            return one(st, r)
        if name == 'trace':
            return one(st, sum([v.e[i][i] for i in range(min(v.r, v.c))], z3.RealVal(0)))
        if name == 'prod':
            r = z3.RealVal(1)
            for ra in v.e:
                for a in ra:
                    r = r * a
            return one(st, r)
        if name == 'isApprox':
            w = R(0)
            b = E.fresh('approx', z3.BoolSort())
            st.assume(z3.Implies(z3.And(*[x == y for ra, rb in zip(v.e, w.e) for x, y in zip(ra, rb)]), b))
            return one(st, b)
        if name == 'normalized' or name == 'normalize':
            n = sqrt(E, st, sum([a * a for ra in v.e for a in ra], z3.RealVal(0)))
            r = FM([[E.fresh('unit', z3.RealSort()) for a in ra] for ra in v.e], v.ty)
            ps = [(a, b) for ra, rb in zip(v.e, r.e) for a, b in zip(ra, rb)]
            st.assume(z3.Or(n > 0, n == 0), *[z3.Implies(n > 0, b * n == a) for a, b in ps], *[z3.Implies(n == 0, b == a) for a, b in ps])
            st.assume(z3.Implies(n > 0, sum([b * b for a, b in ps], z3.RealVal(0)) == 1), z3.Implies(n == 0, z3.And(*[a == 0 for a, b in ps])))
            if name == 'normalized':
                return one(st, r)
            E.write(st, obj, r)
            return one(st, obj)
        if name == 'determinant' and v.r == v.c and v.r <= 3:
            return one(st, det(v.e))
        if name == 'inverse' and v.r == v.c and v.r <= 3:
            d = det(v.e)
            E.oblige(st, 'matrix is invertible', d != 0, 'arith', e.get('l'))
            n = v.r
            minor = lambda i, j: det([[v.e[a][b] for b in range(n) if b != j] for a in range(n) if a != i])
            return one(st, FM([[(1 if (i + j) % 2 == 0 else -1) * minor(j, i) / d for j in range(n)] for i in range(n)], v.ty))
        if name in ('array', 'matrix', 'eval', 'noalias', 'derived'):
            return one(st, obj if isinstance(obj, LV) else v)
        if name in ('head', 'segment', 'tail', 'block', 'topLeftCorner', 'topRows', 'bottomRows', 'middleRows'):
            d = block_dims(E, e)
            k = [lit(R(i)) for i in range(len(args))]
            if d is None or None in k:
                raise Undecided('Eigen block')
            at = {'block': lambda: (k[0], k[1]), 'segment': lambda: (k[0], 0) if v.c == 1 else (0, k[0]), 'head': lambda: (0, 0), 'topLeftCorner': lambda: (0, 0),
                  'tail': lambda: (v.r - d[0], 0) if v.c == 1 else (0, v.c - d[0])}.get(name)
            if at is None:
                raise Undecided('Eigen ' + name)
            r0, c0 = at()
            nr, nc = d if name in ('block', 'topLeftCorner') or v.c == 1 else (1, d[0])
            E.oblige(st, 'Eigen block in range', z3.BoolVal(r0 >= 0 and c0 >= 0 and r0 + nr <= v.r and c0 + nc <= v.c), 'bounds', e.get('l'))
            if not (r0 >= 0 and c0 >= 0 and r0 + nr <= v.r and c0 + nc <= v.c):
                raise Undecided('Eigen block out of range')
            return one(st, obj.ext(('blk', r0, c0, nr, nc)) if isinstance(obj, LV) else FM([row[c0:c0 + nc] for row in v.e[r0:r0 + nr]]))
    if not fixed:
        r = dm_method(E, st, name, obj, v, args, fn, e)
        if r is not None:
            return r
    raise Undecided(f'Eigen {name} ({"fixed" if fixed else "dynamic"})')


def det(m):
    if not m:
        return z3.RealVal(1)
    if len(m) == 1:
        return m[0][0]
    return sum([(1 if j % 2 == 0 else -1) * m[0][j] * det([[r[b] for b in range(len(m)) if b != j] for r in m[1:]]) for j in range(len(m))], z3.RealVal(0))


def matmul(a, b):
    return FM([[sum([a.e[i][k] * b.e[k][j] for k in range(a.c)], z3.RealVal(0)) for j in range(b.c)] for i in range(a.r)])


# ---------------------------------------------------------------- memcpy and byte representations

def pod_size(t):
    if t.k == 'bool':
        return 1
    if t.isint or t.k == 'float':
        return t.w // 8
    return None


def rep_fn(E, t):
    """byte k of the representation of a value of type t, and its inverse, as uninterpreted functions"""
    key = ('rep', t.s)
    if key not in E.ufs:
        n = pod_size(t)
        s = E.S.sort(t)
        f = z3.Function('byte<' + t.s + '>', z3.IntSort(), s, z3.IntSort())
        g = z3.Function('load<' + t.s + '>', *([z3.IntSort()] * n), s)
        x = z3.Const('x?', s)
        k = z3.Int('k?')
        E.axioms.append(z3.ForAll([x], g(*[f(z3.IntVal(i), x) for i in range(n)]) == x, patterns=[f(z3.IntVal(0), x)]))
        bs = [z3.Int('b%d?' % i) for i in range(n)]
        if t.isint and t.k != 'bool':     # every byte pattern is the representation of an integer
            E.axioms.append(z3.ForAll(bs, z3.Implies(z3.And(*[z3.And(b >= 0, b <= 255) for b in bs]), z3.And(*[f(z3.IntVal(i), g(*bs)) == b for i, b in enumerate(bs)])),
                                      patterns=[g(*bs)]))
        E.axioms.append(z3.ForAll([k, x], z3.And(f(k, x) >= 0, f(k, x) <= 255), patterns=[f(k, x)]))
        E.ufs[key] = (f, g)
    return E.ufs[key]


class MatPtr:
    """data() + off of a matrix: its cells in column-major order"""

    def __init__(self, obj, off=None):
        self.obj, self.off = obj, z3.IntVal(0) if off is None else off


def column_of(E, st, p):
    """(length, element at) of a column vector behind a data() pointer"""
    m = E.read(st, p.obj) if isinstance(p.obj, LV) else p.obj
    if isinstance(m, FM) and m.c == 1:
        arr = z3.K(z3.IntSort(), m.e[0][0])
        for k in range(1, m.r):
            arr = z3.Store(arr, k, m.e[k][0])
        return z3.IntVal(m.r), lambda k: z3.Select(arr, k), m
    if isinstance(m, DM) and z3.is_int_value(z3.simplify(m.cols)) and z3.simplify(m.cols).as_long() == 1:
        return m.rows, lambda k: z3.Select(z3.Select(m.arr, k), 0), m
    raise Undecided('pointer into a matrix that is not a column')


CM = z3.Function('column_major', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())    # (rows, r, c) -> c * rows + r


def memcpy_matrix(E, st, dst, src, n, e):
    """bytes <-> all cells of a matrix"""
    to_bytes = isinstance(src, MatPtr)
    o = src.obj if to_bytes else dst.obj
    m = E.read(st, o) if isinstance(o, LV) else o
    p = dst if to_bytes else src
    if not isinstance(p, Ptr) or not is_elem(p) or not isinstance(m, (FM, DM)):
        raise Undecided('memcpy of a matrix')
    bt = E.acc_type(st, p.lv)
    mt = m.ty.args[0] if m.ty is not None else None
    if mt is not None and bt.s.replace('const ', '') == mt.s.replace('const ', ''):
        # elements <-> cells of a column
        w = pod_size(mt)
        mp = src if to_bytes else dst
        rows, at, m = column_of(E, st, mp)
        cnt = z3.simplify(n / w)
        base, off = base_of(p), p.lv.acc[-1][1]
        b = E.read(st, base)
        E.oblige(st, 'memcpy copies whole elements', n % w == 0, 'bounds', e.get('l'))
        E.oblige(st, 'memcpy in the bounds of the matrix', z3.And(mp.off >= 0, mp.off + cnt <= rows), 'bounds', e.get('l'))
        E.oblige(st, 'memcpy in the bounds of the vector', z3.And(off >= 0, off + cnt <= b.len), 'bounds', e.get('l'))
        k = E.fresh('k', z3.IntSort())
        if to_bytes:
            arr = E.fresh('mc', b.arr.sort())
            st.assume(z3.ForAll([k], z3.Select(arr, k) == z3.If(z3.And(off <= k, k < off + cnt), at(k - off + mp.off), z3.Select(b.arr, k)), patterns=[z3.Select(arr, k)]))
            E.write(st, base, VV(b.ty, b.len, arr))
            return one(st, dst)
        if isinstance(m, DM):
            arr = E.fresh('md', m.arr.sort())
            st.assume(z3.ForAll([k], z3.Select(z3.Select(arr, k), 0) == z3.If(z3.And(mp.off <= k, k < mp.off + cnt), z3.Select(b.arr, k - mp.off + off), z3.Select(z3.Select(m.arr, k), 0)),
                                patterns=[z3.Select(arr, k)]))
            E.write(st, o, DM(m.rows, m.cols, arr, m.ty))
            return one(st, dst)
        raise Undecided('memcpy into a fixed matrix')
    if not z3.is_int_value(z3.simplify((src if to_bytes else dst).off)) or z3.simplify((src if to_bytes else dst).off).as_long():
        raise Undecided('memcpy into the middle of a matrix')
    if not (bt.isint and bt.w == 8 and not bt.sg):
        raise Undecided('memcpy between a matrix and something other than bytes')
    base, off = base_of(p), p.lv.acc[-1][1]
    b = E.read(st, base)
    t = m.ty
    if t is None and isinstance(o, LV) and o.acc and o.acc[-1][0] == 'blk':
        t = E.acc_type(st, LV(o.sid, o.acc[:-1]))
    if t is None:
        raise Undecided('scalar type of a matrix expression')
    t = t.args[0]
    w = pod_size(t)
    f, g = rep_fn(E, t)
    rows, cols = (z3.IntVal(m.r), z3.IntVal(m.c)) if isinstance(m, FM) else (m.rows, m.cols)
    E.oblige(st, 'memcpy copies exactly the cells of the matrix', n == w * (m.r * m.c if isinstance(m, FM) else rows * cols), 'bounds', e.get('l'))
    E.oblige(st, 'memcpy %s in bounds' % ('destination' if to_bytes else 'source'), z3.And(off >= 0, off + n <= b.len), 'bounds', e.get('l'))
    if isinstance(m, FM):
        at = lambda r, c: off + w * (c * m.r + r)
        if to_bytes:
            arr = b.arr
            for c in range(m.c):
                for r in range(m.r):
                    for k in range(w):
                        arr = z3.Store(arr, z3.simplify(at(r, c) + k), f(z3.IntVal(k), m.e[r][c]))
            E.write(st, base, VV(b.ty, b.len, E.named(st, arr)))
        else:
            E.write(st, o, FM([[g(*[z3.Select(b.arr, z3.simplify(at(r, c) + k)) for k in range(w)]) for c in range(m.c)] for r in range(m.r)], m.ty))
        return one(st, dst)
    i, j, k, r0 = (E.fresh(x, z3.IntSort()) for x in 'ijkr')
    st.assume(r0 == rows)
    cell = CM(r0, i, j)
    inside = z3.And(0 <= i, i < rows, 0 <= j, j < cols)
    st.assume(z3.ForAll([i, j], z3.Implies(inside, z3.And(0 <= cell, cell < rows * cols)), patterns=[cell]))
    if to_bytes:
        arr = E.fresh('mc', b.arr.sort())
        st.assume(z3.ForAll([i, j], z3.Implies(inside, z3.And(*[z3.Select(arr, off + w * cell + x) == f(z3.IntVal(x), z3.Select(z3.Select(m.arr, i), j)) for x in range(w)])), patterns=[cell]),
                  z3.ForAll([k], z3.Implies(z3.Or(k < off, k >= off + n), z3.Select(arr, k) == z3.Select(b.arr, k)), patterns=[z3.Select(arr, k)]))
        E.write(st, base, VV(b.ty, b.len, arr))
    else:
        arr = E.fresh('md', m.arr.sort())
        st.assume(z3.ForAll([i, j], z3.Implies(inside, z3.Select(z3.Select(arr, i), j) == g(*[z3.Select(b.arr, off + w * cell + x) for x in range(w)])), patterns=[z3.Select(z3.Select(arr, i), j)]))
        E.write(st, o, DM(rows, cols, arr, m.ty))
    return one(st, dst)


def do_memcpy(E, st, dst, src, n, e):
    ns = z3.simplify(n)
    if isinstance(dst, MatPtr) or isinstance(src, MatPtr):
        return memcpy_matrix(E, st, dst, src, n, e)
    if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
        raise Undecided('memcpy arguments')
    dv, sv = is_elem(dst), is_elem(src)
    dt = E.acc_type(st, dst.lv)
    stp = E.acc_type(st, src.lv)
    # bytes <- scalar
    if dv and dt.isint and dt.w == 8 and not dt.sg and pod_size(stp) and not (sv and stp.isint and stp.w == 8 and not stp.sg):
        m = pod_size(stp)
        if not z3.is_int_value(ns):
            if sv:
                return memcpy_array(E, st, dst, src, n, m, e, True)
            raise Undecided('memcpy size')
        f, _ = rep_fn(E, stp)
        base, off = base_of(dst), dst.lv.acc[-1][1]
        v = E.read(st, base)
        cnt = ns.as_long()
        E.oblige(st, 'memcpy destination in bounds', z3.And(off >= 0, off + cnt <= v.len), 'bounds', e.get('l'))
        E.oblige(st, 'memcpy source in bounds', z3.BoolVal(cnt <= m), 'bounds', e.get('l'))
        x = E.read(st, src.lv)
        arr = v.arr
        for i in range(cnt):
            arr = z3.Store(arr, z3.simplify(off + i), f(z3.IntVal(i), x))
        E.write(st, base, VV(v.ty, v.len, E.named(st, arr)))
        return one(st, dst)
    if sv and stp.isint and stp.w == 8 and not stp.sg and pod_size(dt) and not (dv and dt.isint and dt.w == 8 and not dt.sg):
        m = pod_size(dt)
        if not z3.is_int_value(ns):
            if dv:
                return memcpy_array(E, st, dst, src, n, m, e, False)
            raise Undecided('memcpy size')
        _, g = rep_fn(E, dt)
        base, off = base_of(src), src.lv.acc[-1][1]
        v = E.read(st, base)
        cnt = ns.as_long()
        E.oblige(st, 'memcpy source in bounds', z3.And(off >= 0, off + cnt <= v.len), 'bounds', e.get('l'))
        E.oblige(st, 'memcpy destination in bounds', z3.BoolVal(cnt <= m), 'bounds', e.get('l'))
        if cnt != m:
            raise Undecided('partial load')
        x = g(*[z3.Select(v.arr, z3.simplify(off + i)) for i in range(m)])
        f = E.range_fact(dt, x)
        if f is not None:
            st.assume(f)
        E.write(st, dst.lv, x)
        return one(st, dst)
    if dv and sv and dt.s.replace('const ', '') == stp.s.replace('const ', '') or (dv and sv and dt.isint and stp.isint and dt.w == stp.w and dt.sg == stp.sg):
        size = pod_size(dt)
        cnt = z3.simplify(n / size) if size != 1 else n
        if size != 1:
            E.oblige(st, 'memcpy copies whole elements', n % size == 0, 'bounds', e.get('l'))
        db, do = base_of(dst), dst.lv.acc[-1][1]
        sb, so = base_of(src), src.lv.acc[-1][1]
        d, s = E.read(st, db), E.read(st, sb)
        E.oblige(st, 'memcpy destination in bounds', z3.And(do >= 0, do + cnt <= d.len), 'bounds', e.get('l'))
        E.oblige(st, 'memcpy source in bounds', z3.And(so >= 0, so + cnt <= s.len), 'bounds', e.get('l'))
        arr = E.fresh('mc', d.arr.sort())
        i = E.fresh('i', z3.IntSort())
        st.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(do <= i, i < do + cnt), z3.Select(s.arr, i - do + so), z3.Select(d.arr, i)),
                            patterns=[z3.Select(arr, i)]))
        E.write(st, db, VV(d.ty, d.len, arr))
        return one(st, dst)
    if not dv and not sv and z3.is_int_value(ns) and pod_size(dt) == pod_size(stp) == ns.as_long():
        # reinterpretation of one scalar as another of the same size
        x = E.read(st, src.lv)
        if dt.s.replace('const ', '') != stp.s.replace('const ', ''):
            f, _ = rep_fn(E, stp)
            _, g = rep_fn(E, dt)
            x = g(*[f(z3.IntVal(i), x) for i in range(ns.as_long())])
            rf = E.range_fact(dt, x)
            if rf is not None:
                st.assume(rf)
        E.write(st, dst.lv, x)
        return one(st, dst)
    raise Undecided(f'memcpy {dt} <- {stp}')


def memcpy_array(E, st, dst, src, n, m, e, to_bytes):
    """bytes <-> array of scalars, n a multiple of the element size"""
    db, do = base_of(dst), dst.lv.acc[-1][1]
    sb, so = base_of(src), src.lv.acc[-1][1]
    d, s = E.read(st, db), E.read(st, sb)
    E.oblige(st, 'memcpy copies whole elements', n % m == 0, 'bounds', e.get('l'))
    cnt = n / m
    i = E.fresh('i', z3.IntSort())
    arr = E.fresh('mc', d.arr.sort())
    if to_bytes:
        f, _ = rep_fn(E, s.et)
        E.oblige(st, 'memcpy destination in bounds', z3.And(do >= 0, do + n <= d.len), 'bounds', e.get('l'))
        E.oblige(st, 'memcpy source in bounds', z3.And(so >= 0, so + cnt <= s.len), 'bounds', e.get('l'))
        for k in range(m):
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt),
                                                z3.Select(arr, do + i * m + k) == f(z3.IntVal(k), z3.Select(s.arr, so + i)))))
        st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < do, i >= do + n), z3.Select(arr, i) == z3.Select(d.arr, i)),
                            patterns=[z3.Select(arr, i)]))
    else:
        _, g = rep_fn(E, d.et)
        E.oblige(st, 'memcpy source in bounds', z3.And(so >= 0, so + n <= s.len), 'bounds', e.get('l'))
        E.oblige(st, 'memcpy destination in bounds', z3.And(do >= 0, do + cnt <= d.len), 'bounds', e.get('l'))
        st.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(do <= i, i < do + cnt), g(
            *[z3.Select(s.arr, so + (i - do) * m + k) for k in range(m)]), z3.Select(d.arr, i)), patterns=[z3.Select(arr, i)]))
    E.write(st, db, VV(d.ty, d.len, arr))
    return one(st, dst)


def f_bswap(w):
    """contract of the compiler's byte swap: byte k of the result is byte n-1-k of the argument"""
    def fn_(E, st, fn, args, e):
        x = E.rv(st, args[0])
        if E.ints != 'int':
            raise Undecided('byte swap of bit vectors')
        t = E.ty(e)
        f, g = rep_fn(E, t)
        n = w // 8
        r = g(*[f(z3.IntVal(n - 1 - i), x) for i in range(n)])
        rf = E.range_fact(t, r)
        if rf is not None:
            st.assume(rf)
        return one(st, r)
    return fn_


def is_elem(p):
    return bool(p.lv is not None and p.lv.acc and p.lv.acc[-1][0] == 'i')


# ---------------------------------------------------------------- free functions

def tomath(E, st, v, t):
    return v


def num2(E, st, args, e):
    a, b = E.rv(st, args[0]), E.rv(st, args[1])
    if z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    if z3.is_real(b) and z3.is_int(a):
        a = z3.ToReal(a)
    return a, b


def call(E, st, fn, obj, args, e):
    q = fn['q']
    name = last(q)
    if obj is not None:
        v = E.rv(st, obj)
        if isinstance(obj, tuple) and obj and obj[0] == 'mapelem':
            raise Undecided('method on a map element')
        if isinstance(v, VV):
            return vec_method(E, st, name, obj, v, args, fn, e)
        if isinstance(v, MV):
            return map_method(E, st, name, obj, v, args, fn, e)
        if isinstance(v, (FM, DM)):
            return mat_method(E, st, name, obj, v, args, fn, e)
        if isinstance(v, Comma):
            if name == 'operator,' and len(args) == 1:
                return comma(E, st, v, E.rv(st, args[0]), e)
            raise Undecided('comma initializer ' + name)
        if isinstance(v, ColW):
            return colwise_method(E, st, name, v, args, e)
        if isinstance(v, (Iter, Ptr)):
            return iter_method(E, st, name, obj, v, args, e)
        if isinstance(v, (UFun, Clo)):
            if name == 'operator bool':
                return one(st, z3.BoolVal(True))
            return E.call_value(st, v, args, e)
        if name == 'operator=' and isinstance(obj, LV):
            x = E.rv(st, args[0])
            if isinstance(v, SV) and isinstance(x, (SV, PairVal)):
                x = SV(v.ty, x.f)
            E.write(st, obj, x)
            return one(st, obj)
        if isinstance(v, Opaque):
            return opaque_call(E, st, fn, obj, v, args, e)
        if isinstance(v, SV) and v.ty.is_pair and name in ('operator==', 'operator!='):
            pass
        raise Undecided(f'method {q} on {type(v).__name__}')
    h = FREE.get(q) or FREE.get(name if q.startswith('std::') or '::' not in q else None)
    if h is not None:
        return h(E, st, fn, args, e)
    if args:
        vals = [E.rv(st, a) for a in args]
        if name in ('operator==', 'operator!=') and len(vals) == 2:
            r = values_equal(E, st, vals[0], vals[1])
            if r is not None:
                return one(st, r if name == 'operator==' else z3.Not(r))
        if name == 'operator+' and len(vals) == 2 and any(isinstance(x, VV) for x in vals):
            return one(st, E.havoc(st, E.ty(e), 'str'))
        if isinstance(vals[0], (Iter, Ptr)) and name.startswith('operator'):
            return iter_method(E, st, name, args[0], vals[0], args[1:], e)
        if name == 'operator<<' or name == 'operator>>':
            return one(st, args[0])
        if name in ('operator*', 'operator+', 'operator-') and isinstance(vals[-1], (FM, DM)):
            if is_z3(vals[0]):
                return mat_method(E, st, 'operator*', vals[1], vals[1], [vals[0]], fn, e)
            return mat_method(E, st, name, vals[0], vals[0], args[1:], fn, e)
        if name == 'operator+' and len(vals) == 2:
            return one(st, E.havoc(st, E.ty(e), 'str'))
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and all(isinstance(x, Iter) for x in vals):
            return one(st, ptr_bin(E, st, name[8:], vals[0], vals[1]))
    raise Undecided(f'call of {q} (no contract) line {e.get("l")}')


def values_equal(E, st, a, b):
    if isinstance(a, Iter) and isinstance(b, Iter) or isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptr_bin(E, st, '==', a, b)
    if isinstance(a, VV) and isinstance(b, VV):
        return vec_eq(E, st, a, b)
    if isinstance(a, SV) and isinstance(b, SV):
        rs = [values_equal(E, st, a.f[k], b.f[k]) for k in a.f]
        return None if any(r is None for r in rs) else z3.And(rs)
    if is_z3(a) and is_z3(b):
        return a == b if not z3.is_fp(a) else z3.fpEQ(a, b)
    if isinstance(a, FM) and isinstance(b, FM):
        return z3.And([x == y for r, s in zip(a.e, b.e) for x, y in zip(r, s)])
    if isinstance(a, (UFun, Clo)) or isinstance(b, (UFun, Clo)):
        return z3.BoolVal(False)
    return None


def iter_method(E, st, name, obj, v, args, e):
    if name == 'operator*' or name == 'operator->':
        r = E.star(st, v)
        return one(st, r if name == 'operator*' else (Ptr(r) if isinstance(r, LV) else r))
    if name in ('operator++', 'operator--'):
        n = iter_step(E, st, v, 1 if name == 'operator++' else -1)
        if isinstance(obj, LV):
            E.write(st, obj, n)
        return one(st, v if args else obj)
    if name in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
        return one(st, ptr_bin(E, st, name[8:], v, E.rv(st, args[0])))
    if name in ('operator+=', 'operator-='):
        n = ptr_bin(E, st, name[8], v, E.rv(st, args[0]))
        E.write(st, obj, n)
        return one(st, obj)
    if name == 'operator[]':
        return one(st, E.star(st, ptr_bin(E, st, '+', v, E.rv(st, args[0]))))
    if name == 'operator=':
        E.write(st, obj, E.rv(st, args[0]))
        return one(st, obj)
    if name == 'base':
        return one(st, v)
    raise Undecided(f'iterator {name}')


class Dist:
    """a random distribution with its parameters; a draw is an arbitrary value of the support"""

    def __init__(self, name, params):
        self.name, self.params = name, params

    def __str__(self):
        return self.name


def opaque_call(E, st, fn, obj, v, args, e):
    name = last(fn['q'])
    if isinstance(v.what, Dist) and name == 'operator()' and v.what.name != 'std::uniform_int_distribution' and E.reals == 'real':
        r = E.fresh('draw', z3.RealSort())
        st.assume(r < E.INF, r > -E.INF)
        if v.what.name == 'std::uniform_real_distribution':
            a, b = (v.what.params + [z3.RealVal(0), z3.RealVal(1)])[:2] if len(v.what.params) != 1 else (v.what.params[0], z3.RealVal(1))
            E.oblige(st, 'uniform distribution over a proper range', a <= b, 'bounds', e.get('l'))
            st.assume(r >= a, r <= b)
        if v.what.name == 'std::exponential_distribution':
            st.assume(r >= 0)
        return one(st, r)
    if isinstance(v.what, Dist) and name == 'operator()' and v.what.name == 'std::uniform_int_distribution' and E.ints == 'int':
        r = E.fresh('draw', z3.IntSort())
        a, b = v.what.params
        E.oblige(st, 'uniform distribution over a proper range', a <= b, 'bounds', e.get('l'))
        st.assume(r >= a, r <= b)
        return one(st, r)
    if name == 'time_since_epoch':
        return one(st, Opaque('duration'))
    if name == 'count':
        return one(st, E.havoc(st, E.ty(e), 'count'))
    if name in ('operator<<', 'operator>>', 'flush', 'str', 'what', 'precision', 'setf', 'width'):
        t = E.ty(e)
        if name == 'operator<<':
            return one(st, obj)
        return one(st, E.havoc(st, t, 'opaque') if t.k != 'void' else None)
    raise Undecided(f'{fn["q"]} on an opaque object')


def f_minmax(which):
    def f(E, st, fn, args, e):
        if len(args) == 1:
            v = E.rv(st, args[0])
            n = z3.simplify(v.len).as_long()
            xs = [z3.Select(v.arr, E.IV(i)) for i in range(n)]
        else:
            xs = list(num2(E, st, args, e))
        t = E.ty(e)
        r = xs[0]
        for b in xs[1:]:
            if which == 'min':
                c = E.cmp('<', b, r, t.deref())      # std::min returns the first when equal
            else:
                c = E.cmp('<', r, b, t.deref())
            r = z3.If(c, b, r)
        return one(st, r)
    return f


def f_abs(E, st, fn, args, e):
    x = E.rv(st, args[0])
    t = E.ty(e)
    if z3.is_int(x):
        if t.isint:
            lo, hi = E.rng(t)
            E.oblige(st, 'abs of the minimum value', x != lo, 'overflow', e.get('l'))
        r = z3.If(x >= 0, x, -x)
        return one(st, z3.ToReal(r) if t.k == 'float' else r)
    if z3.is_bv(x):
        return one(st, z3.If(x >= 0, x, -x))
    return one(st, fabs(x))


def toreal(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def f_floor(E, st, fn, args, e):
    x = toreal(E.rv(st, args[0]))
    if z3.is_fp(x):
        return one(st, z3.fpRoundToIntegral(z3.RTN(), x))
    return one(st, z3.ToReal(z3.ToInt(x)))


def f_ceil(E, st, fn, args, e):
    x = toreal(E.rv(st, args[0]))
    if z3.is_fp(x):
        return one(st, z3.fpRoundToIntegral(z3.RTP(), x))
    return one(st, -z3.ToReal(z3.ToInt(-x)))


def f_round(E, st, fn, args, e):
    x = toreal(E.rv(st, args[0]))
    if z3.is_fp(x):
        return one(st, z3.fpRoundToIntegral(z3.RNA(), x))
    half = z3.RealVal('1/2')
    return one(st, z3.If(x >= 0, z3.ToReal(z3.ToInt(x + half)), -z3.ToReal(z3.ToInt(-x + half))))


def f_sqrt(E, st, fn, args, e):
    return one(st, sqrt(E, st, toreal(E.rv(st, args[0]))))


def f_pow(E, st, fn, args, e):
    a, b = toreal(E.rv(st, args[0])), toreal(E.rv(st, args[1]))
    bs = z3.simplify(b)
    if z3.is_rational_value(bs) and bs.denominator_as_long() == 1 and 0 <= bs.numerator_as_long() <= 4:
        r = z3.RealVal(1)
        for _ in range(bs.numerator_as_long()):
            r = r * a
        return one(st, z3.simplify(r))
    f = E.ufs.setdefault('pow', z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort()))
    return one(st, f(a, b))


def f_trans(name):
    def f(E, st, fn, args, e):
        xs = [toreal(E.rv(st, a)) for a in args]
        if any(z3.is_fp(x) for x in xs):
            raise Undecided(name + ' in floating point')
        g = E.ufs.setdefault(name, z3.Function(name, *([z3.RealSort()] * (len(xs) + 1))))
        r = g(*xs)
        if name in ('sin', 'cos'):
            st.assume(r >= -1, r <= 1)
            if getattr(E, 'trig', False):
                o = E.ufs.setdefault('cos' if name == 'sin' else 'sin', z3.Function('cos' if name == 'sin' else 'sin', z3.RealSort(), z3.RealSort()))
                st.assume(r * r + o(xs[0]) * o(xs[0]) == 1)
        if name == 'acos':
            st.assume(z3.Implies(z3.And(xs[0] >= -1, xs[0] <= 1), z3.And(r >= 0, r <= z3.RealVal('3.141592653589794'))))
        if name in ('exp',):
            st.assume(r > 0)
        return one(st, r)
    return f


def f_isinf(E, st, fn, args, e):
    x = E.rv(st, args[0])
    if z3.is_fp(x):
        return one(st, z3.fpIsInf(x))
    return one(st, z3.Or(x == E.INF, x == -E.INF))


def f_isnan(E, st, fn, args, e):
    x = E.rv(st, args[0])
    if z3.is_fp(x):
        return one(st, z3.fpIsNaN(x))
    return one(st, z3.BoolVal(False))


def f_isfinite(E, st, fn, args, e):
    x = E.rv(st, args[0])
    if z3.is_fp(x):
        return one(st, z3.And(z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(x))))
    return one(st, z3.And(x != E.INF, x != -E.INF))


def f_copysign(E, st, fn, args, e):
    a, b = [toreal(E.rv(st, x)) for x in args]
    if z3.is_fp(a):
        ab = z3.fpAbs(a)
        return one(st, z3.If(z3.fpIsNegative(b), z3.fpNeg(ab), ab))
    return one(st, z3.If(b < 0, -fabs(a), fabs(a)))


def f_fmod(E, st, fn, args, e):
    a, b = [toreal(E.rv(st, x)) for x in args]
    if z3.is_fp(a):
        raise Undecided('fmod in floating point')
    E.oblige(st, 'fmod by zero', b != 0, 'arith', e.get('l'))
    # a = n*b + r, |r| < |b|, r has the sign of a
    n = E.fresh('fmodn', z3.IntSort())
    r = E.fresh('fmod', z3.RealSort())
    st.assume(a == z3.ToReal(n) * b + r, fabs(r) < fabs(b), z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))
    return one(st, r)


def f_remainder(E, st, fn, args, e):
    a, b = [toreal(E.rv(st, x)) for x in args]
    n = E.fresh('remn', z3.IntSort())
    r = E.fresh('rem', z3.RealSort())
    st.assume(a == z3.ToReal(n) * b + r, 2 * fabs(r) <= fabs(b))
    return one(st, r)


def f_move(E, st, fn, args, e):
    return one(st, args[0])


def f_makepair(E, st, fn, args, e):
    t = E.ty(e)
    a, b = E.rv(st, args[0]), E.rv(st, args[1])
    return one(st, SV(t, {'first': pairfix(E, st, t.args[0], E.retype(a, t.args[0])), 'second': pairfix(E, st, t.args[1], E.retype(b, t.args[1]))}))


def f_memcpy(E, st, fn, args, e):
    return do_memcpy(E, st, E.rv(st, args[0]), E.rv(st, args[1]), E.rv(st, args[2]), e)


def f_swap(E, st, fn, args, e):
    a, b = E.read(st, args[0]), E.read(st, args[1])
    E.write(st, args[0], b)
    E.write(st, args[1], a)
    return one(st, None)


def f_begin(E, st, fn, args, e):
    v = E.rv(st, args[0])
    if isinstance(v, MV):
        return map_method(E, st, 'begin', args[0], v, [], fn, e)
    return one(st, Iter(need_lv(E, st, args[0], v), E.IV(0)))


def f_end(E, st, fn, args, e):
    v = E.rv(st, args[0])
    if isinstance(v, MV):
        return map_method(E, st, 'end', args[0], v, [], fn, e)
    return one(st, Iter(need_lv(E, st, args[0], v), v.len))


def f_reverse(E, st, fn, args, e):
    a, b = E.rv(st, args[0]), E.rv(st, args[1])
    v, lo, hi = rng_of(E, st, a, b, e)
    arr = E.fresh('rev', v.arr.sort())
    i = E.fresh('i', E.S.index())
    st.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(inrange(lo, i, hi), z3.Select(v.arr, lo + hi - 1 - i), z3.Select(v.arr, i)),
                        patterns=[z3.Select(arr, i)]))
    E.write(st, a.lv, VV(v.ty, v.len, arr))
    return one(st, None)


def pred_formula(E, st, f, et, xs):
    """formula of the (pure) callable f applied to packed elements xs; facts about the elements go to st"""
    s = st.copy()
    ls = [E.new_slot(s, et, E.S.unpack(et, x)) for x in xs]
    n0, n = len(E.obls), len(st.pc)
    if isinstance(f, LV):
        f = E.read(s, f)
    if isinstance(f, Clo):
        r = E.call_closure(s, f, ls, {'l': None, 't': None})
    else:
        raise Undecided('predicate of unknown shape')
    del E.obls[n0:]
    parts = []
    for s2, x in r:
        if type(x).__name__ == 'Thrown':
            raise Undecided('throwing predicate')
        x = E.tobool(E.rv(s2, x))
        extra = [p for p in s2.pc[n:]]
        parts.append(z3.And(*extra, x) if len(r) > 1 else x)
    if not parts:
        raise Undecided('predicate without outcome')
    return parts[0] if len(parts) == 1 else z3.Or(parts)


def f_extreme(which):
    def f(E, st, fn, args, e):
        v, lo, hi = rng_of(E, st, E.rv(st, args[0]), E.rv(st, args[1]), e)
        E.oblige(st, 'extreme element of a non-empty range', lo < hi, 'bounds', e.get('l'))
        k = E.fresh('ext', E.S.index())
        i = E.fresh('i', E.S.index())
        st.assume(inrange(lo, k, hi))
        a = lambda j: z3.Select(v.arr, j)
        t = v.et
        if E.dry is not None:
            return one(st, Iter(E.rv(st, args[0]).lv, k))
        if len(args) == 3:
            lt = lambda x, y: pred_formula(E, st, args[2], t, [x, y])
        else:
            lt = lambda x, y: E.cmp('<', x, y, t)
        better = (lambda x, y: lt(x, y)) if which == 'min' else (lambda x, y: lt(y, x))
        st.assume(z3.ForAll([i], z3.Implies(inrange(lo, i, hi), z3.Not(better(a(i), a(k)))), patterns=[a(i)]))
        st.assume(z3.ForAll([i], z3.Implies(inrange(lo, i, k), better(a(k), a(i))), patterns=[a(i)]))
        return one(st, Iter(E.rv(st, args[0]).lv, k))
    return f


def f_find(neg=False, pred=False):
    def f(E, st, fn, args, e):
        v, lo, hi = rng_of(E, st, E.rv(st, args[0]), E.rv(st, args[1]), e)
        k = E.fresh('pos', E.S.index())
        i = E.fresh('i', E.S.index())
        st.assume(k >= lo, k <= hi)
        a = lambda j: z3.Select(v.arr, j)
        if E.dry is None:
            if pred:
                hit = lambda j: pred_formula(E, st, args[2], v.et, [a(j)])
            else:
                x = E.S.pack(v.et, E.rv(st, args[2]))
                hit = lambda j: a(j) == x
            h = (lambda j: z3.Not(hit(j))) if neg else hit
            st.assume(z3.Implies(k < hi, h(k)))
            st.assume(z3.ForAll([i], z3.Implies(inrange(lo, i, k), z3.Not(h(i))), patterns=[a(i)]))
        return one(st, Iter(E.rv(st, args[0]).lv, k))
    return f


def f_quant(which):
    def f(E, st, fn, args, e):
        v, lo, hi = rng_of(E, st, E.rv(st, args[0]), E.rv(st, args[1]), e)
        if E.dry is not None:
            return one(st, E.fresh('q', z3.BoolSort()))
        i = E.fresh('i', E.S.index())
        p = pred_formula(E, st, args[2], v.et, [z3.Select(v.arr, i)])
        if which == 'all':
            r = z3.ForAll([i], z3.Implies(inrange(lo, i, hi), p), patterns=[z3.Select(v.arr, i)])
        else:
            r = z3.ForAll([i], z3.Implies(inrange(lo, i, hi), z3.Not(p)), patterns=[z3.Select(v.arr, i)])
        return one(st, z3.Not(r) if which == 'any' else r)
    return f


def f_distance(E, st, fn, args, e):
    return one(st, ptr_bin(E, st, '-', E.rv(st, args[1]), E.rv(st, args[0])))


def f_accumulate(E, st, fn, args, e):
    raise Undecided('std::accumulate')


def f_fill(E, st, fn, args, e):
    a, b, x = [E.rv(st, z) for z in args]
    v, lo, hi = rng_of(E, st, a, b, e)
    arr = E.fresh('fill', v.arr.sort())
    i = E.fresh('i', E.S.index())
    px = E.S.pack(v.et, x)
    st.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(inrange(lo, i, hi), px, z3.Select(v.arr, i)), patterns=[z3.Select(arr, i)]))
    E.write(st, a.lv, VV(v.ty, v.len, arr))
    return one(st, None)


def f_const(v):
    return lambda E, st, fn, args, e: one(st, E.fval(v, E.ty(e)) if E.ty(e).k == 'float' else E.IV(v, E.ty(e)))


def f_str(E, st, fn, args, e):
    return one(st, E.havoc(st, E.ty(e), 'str'))


def f_none(E, st, fn, args, e):
    return one(st, None)


def f_strlen(E, st, fn, args, e):
    raise Undecided('strlen')


def plain_type(t):
    """the plain matrix type of an Eigen expression type"""
    t = t.deref()
    for _ in range(6):
        if t.is_mat:
            return t
        nxt = [a for a in t.args if a is not None and not isinstance(a, int) and (a.is_mat or (a.n or '').startswith('Eigen::'))]
        if not nxt:
            break
        t = next((a for a in nxt if a.is_mat), nxt[-1])
    raise Undecided(f'Eigen expression type {t}')


def f_constmat(what):
    def f(E, st, fn, args, e):
        t = plain_type(E.ty(e))
        r, c = t.mshape
        vals = [E.rv(st, a) for a in args]
        x = z3.RealVal({'Zero': 0, 'Ones': 1}.get(what, 0))
        dims = vals
        if what == 'Constant':
            x, dims = toreal(vals[-1]), vals[:-1]
        if r > 0 and c > 0:
            if what.startswith('Unit'):
                d = block_dims(E, e)
                r, c = d if d else (r, c)
                t = None
                return one(st, FM([[z3.RealVal(int(max(i, j) == 'XYZW'.index(what[-1]))) for j in range(c)] for i in range(r)], t))
            if what == 'Identity':
                m = [[z3.RealVal(int(i == j)) for j in range(c)] for i in range(r)]
                if t.n == 'Eigen::Quaternion':
                    m = [[z3.RealVal(int(i == 3))] for i in range(4)]
                if t.n == 'Eigen::Translation':
                    m = [[z3.RealVal(0)] for i in range(r)]
                return one(st, FM(m, t))
            return one(st, FM([[x] * c for _ in range(r)], t))
        if what == 'Identity':
            raise Undecided('dynamic identity')
        if not dims:
            raise Undecided('dynamic constant matrix')
        rows = dims[0] if r < 0 else z3.IntVal(r)
        cols = dims[-1] if c < 0 else z3.IntVal(c)
        return one(st, DM(rows, cols, z3.K(z3.IntSort(), z3.K(z3.IntSort(), x)), t))
    return f


def f_now(E, st, fn, args, e):
    return one(st, Opaque('time'))


FREE = {
    'std::chrono::operator-': f_now,
    **{f'std::chrono::{c}::now': f_now for c in ('system_clock', 'steady_clock', 'high_resolution_clock')},
    **{f'std::chrono::_V2::{c}::now': f_now for c in ('system_clock', 'steady_clock', 'high_resolution_clock')},
    **{f'Eigen::{c}::{n}': f_constmat(n) for c in ('DenseBase', 'MatrixBase', 'Transform', 'QuaternionBase', 'Translation', 'Quaternion') for n in ('Zero', 'Ones', 'Identity', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'UnitW')},
    'std::min': f_minmax('min'), 'std::max': f_minmax('max'), 'fmin': f_minmax('min'), 'fmax': f_minmax('max'),
    'std::fmin': f_minmax('min'), 'std::fmax': f_minmax('max'),
    'std::abs': f_abs, 'std::fabs': f_abs, 'fabs': f_abs, 'abs': f_abs, 'labs': f_abs,
    '__builtin_expect': lambda E, st, fn, args, e: one(st, E.rv(st, args[0])),
    'std::floor': f_floor, 'floor': f_floor, 'std::ceil': f_ceil, 'ceil': f_ceil, 'std::round': f_round, 'round': f_round,
    'std::sqrt': f_sqrt, 'sqrt': f_sqrt, 'std::pow': f_pow, 'pow': f_pow,
    'std::isinf': f_isinf, 'std::isnan': f_isnan, 'std::isfinite': f_isfinite, 'isnan': f_isnan, 'isinf': f_isinf,
    'std::copysign': f_copysign, 'copysign': f_copysign, 'fmod': f_fmod, 'std::fmod': f_fmod,
    'remainder': f_remainder, 'std::remainder': f_remainder,
    'std::move': f_move, 'std::forward': f_move, 'std::make_pair': f_makepair,
    'memcpy': f_memcpy, 'std::memcpy': f_memcpy, 'memmove': f_memcpy, 'std::memmove': f_memcpy, '__builtin_memcpy': f_memcpy,
    'std::swap': f_swap, 'std::begin': f_begin, 'std::end': f_end, 'std::reverse': f_reverse,
    'std::min_element': f_extreme('min'), 'std::max_element': f_extreme('max'), 'std::distance': f_distance,
    'std::find': f_find(), 'std::find_if': f_find(pred=True), 'std::find_if_not': f_find(neg=True, pred=True),
    'std::all_of': f_quant('all'), 'std::any_of': f_quant('any'), 'std::none_of': f_quant('none'),
    'std::fill': f_fill, 'std::to_string': f_str, 'std::endl': f_none,
    'std::addressof': lambda E, st, fn, args, e: one(st, Ptr(args[0])),
}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'erf', 'tgamma'):
    FREE[_n] = FREE['std::' + _n] = f_trans(_n)
for _w in (16, 32, 64):
    FREE[f'__bswap_{_w}'] = FREE[f'__builtin_bswap{_w}'] = f_bswap(_w)


# ---------------------------------------------------------------- constructors of library types

def construct(E, st, t, fn, vs, e):
    vals = [E.rv(st, v) for v in vs]
    vals = [v for v in vals if not (isinstance(v, Opaque) and 'alloc' in str(v.what))]
    if t.is_vec or t.is_pq:
        if not vals:
            if t.n == 'std::array':
                return one(st, E.default(st, t))
            return one(st, E.default(st, t))
        a = vals[0]
        if isinstance(a, VV):
            if t.is_pq:
                if a.ty.is_pq and len(vals) == 1:
                    return one(st, VV(t, a.len, a.arr))
                raise Undecided('priority queue from a container')
            n = a.len
            if t.n == 'std::basic_string' and a.ty.k == 'arr':
                n = z3.simplify(a.len - 1)
            return one(st, VV(t, n, a.arr))
        if isinstance(a, MatPtr) and len(vals) >= 2 and isinstance(vals[1], MatPtr):
            b = vals[1]
            if (a.obj.sid, a.obj.acc) != (b.obj.sid, b.obj.acc) if isinstance(a.obj, LV) and isinstance(b.obj, LV) else a.obj is not b.obj:
                raise Undecided('a range over two matrices')
            n, at, m = column_of(E, st, a)
            E.oblige(st, 'the range lies in the matrix', z3.And(0 <= a.off, a.off <= b.off, b.off <= n), 'bounds', e.get('l'))
            arr = E.fresh('rng', z3.ArraySort(E.S.index(), E.S.sort(t.velem)))
            if arr.range() != at(a.off).sort():
                raise Undecided('converting range constructor')
            k = E.fresh('k', z3.IntSort())
            st.assume(z3.ForAll([k], z3.Select(arr, k) == at(a.off + k), patterns=[z3.Select(arr, k)]))
            return one(st, VV(t, z3.simplify(b.off - a.off), arr))
        if isinstance(a, (Iter, Ptr)) and len(vals) >= 2 and isinstance(vals[1], (Iter, Ptr)):
            v, lo, hi = rng_of(E, st, a, vals[1], e)
            if E.S.sort(v.et) != E.S.sort(t.velem):
                raise Undecided('converting range constructor')
            if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
                return one(st, VV(t, hi, v.arr))
            return one(st, vec_append(E, st, VV(t, E.IV(0), E.fresh('empty', v.arr.sort())), v.arr, lo, hi - lo))
        if isinstance(a, Ptr) and t.n == 'std::basic_string':
            base = E.read(st, base_of(a))
            if len(vals) == 1:
                if z3.is_int_value(base.len) or z3.is_bv_value(base.len):
                    return one(st, VV(t, z3.simplify(base.len - 1), base.arr))
                return one(st, E.havoc(st, t, 'str'))
            return one(st, VV(t, vals[1], base.arr))
        if isinstance(a, Opaque):
            return one(st, E.default(st, t) if t.is_pq else E.havoc(st, t, 'opq'))
        if is_z3(a):
            et = t.velem
            if t.n == 'std::basic_string' and len(vals) == 2:
                return one(st, VV(t, a, z3.K(E.S.index(), vals[1])))
            x = E.S.pack(et, vals[1]) if len(vals) > 1 and vals[1] is not None else elem_default(E, st, et)
            cap(E, st, a, 'vector(n)')
            return one(st, VV(t, a, z3.K(E.S.index(), x)))
        if t.is_pq:
            if not isinstance(a, SV) or any(not (isinstance(x, VV) and z3.is_int_value(z3.simplify(x.len)) and z3.simplify(x.len).as_long() == 0 or x is None or isinstance(x, Opaque)) for x in vals[1:]):
                raise Undecided('priority queue constructor')
            if 'pqcmp:' + t.s in st.ghost and st.ghost['pqcmp:' + t.s] is not a:
                raise Undecided('two priority queues with comparators')
            st.ghost['pqcmp:' + t.s] = a     # a comparator with state: kept for the ordering
            return one(st, E.default(st, t))
        raise Undecided(f'constructor of {t} from {type(a).__name__}')
    if t.is_map or t.is_set:
        if not vals or is_z3(vals[0]) or isinstance(vals[0], Opaque):
            return one(st, E.default(st, t))
        if isinstance(vals[0], MV):
            return one(st, vals[0])
        raise Undecided(f'constructor of {t}')
    if t.is_pair:
        if not vals:
            return one(st, E.default(st, t))
        if len(vals) == 1 and not isinstance(vals[0], (SV, PairVal)):
            vals = [E.rv(st, vals[0])]
            if isinstance(vals[0], tuple):
                vals = [mapelem_value(E, st, vals[0])]
        if len(vals) == 2:
            return one(st, SV(t, {'first': pairfix(E, st, t.args[0], vals[0]), 'second': pairfix(E, st, t.args[1], vals[1])}))
        if isinstance(vals[0], (SV, PairVal)):
            return one(st, SV(t, {'first': pairfix(E, st, t.args[0], vals[0].f['first']), 'second': pairfix(E, st, t.args[1], vals[0].f['second'])}))
        raise Undecided(f'pair constructor from {[type(v).__name__ for v in vals]}')
    if t.is_mat:
        if not vals:
            return one(st, E.default(st, t))
        if isinstance(vals[0], FM) and len(vals) == 1:
            x = as_kind(vals[0], t, E, st)
            if x is not None:
                return one(st, x)
        if isinstance(vals[0], (FM, DM)) and len(vals) == 1:
            return one(st, E.retype(vals[0], t))
        r, c = t.mshape
        if t.n == 'Eigen::AngleAxis':
            if len(vals) == 2 and isinstance(vals[1], FM) and vals[1].r == 3:
                return one(st, FM(vals[1].e + [[toreal(vals[0])]], t))
            raise Undecided('constructor of an angle-axis')
        if t.n == 'Eigen::Quaternion' and len(vals) == 4:
            w, x, y, z = [toreal(v) for v in vals]
            return one(st, FM([[x], [y], [z], [w]], t))
        if r > 0 and c > 0 and len(vals) == r * c and all(is_z3(x) for x in vals):
            vals = [toreal(x) for x in vals]
            return one(st, FM([[vals[i * c + j] for j in range(c)] for i in range(r)], t))
        if r < 0 and c < 0 and len(vals) == 2:
            return one(st, DM(vals[0], vals[1], E.fresh('emat', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), E.S.scalar(t.args[0])))), t))
        if (r < 0) != (c < 0) and len(vals) == 1 and z3.is_int(vals[0]):
            rr = vals[0] if r < 0 else z3.IntVal(r)
            cc = vals[0] if c < 0 else z3.IntVal(c)
            return one(st, DM(rr, cc, E.fresh('emat', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), E.S.scalar(t.args[0])))), t))
        raise Undecided(f'constructor of {t}')
    if t.k == 'rec' and ('exception' in t.s or 'error' in t.s or 'invalid_argument' in t.s or 'out_of_range' in t.s):
        return one(st, Opaque('exception'))
    if len(vals) == 1 and isinstance(vals[0], (Iter, Clo, UFun)):
        return one(st, vals[0])
    if t.is_struct and 'rec' in t.raw and len(vals) == 1 and isinstance(vals[0], SV):
        return one(st, vals[0])
    if 'allocator' in t.s:
        return one(st, Opaque('alloc'))
    if t.n == 'std::uniform_int_distribution' and len(vals) == 2:
        d = Opaque(t.n)
        d.what = Dist(t.n, vals)
        return one(st, d)
    if t.n == 'std::mersenne_twister_engine':
        return one(st, Opaque(t.n))
    if t.n in ('std::uniform_real_distribution', 'std::normal_distribution', 'std::exponential_distribution'):
        d = Opaque(t.n)
        d.what = Dist(t.n, vals)
        return one(st, d)
    if 'stream' in t.s:
        return one(st, Opaque('stream'))
    if t.k == 'rec' and not vals and (t.n or '').startswith('std::'):
        return one(st, Opaque(t.s))
    if t.s.startswith('std::less') or t.s.startswith('std::hash') or t.s.startswith('std::equal_to'):
        return one(st, Opaque(t.s))
    if (t.n or '').startswith('std::chrono::') and len(vals) == 1 and isinstance(vals[0], Opaque):
        return one(st, Opaque('time'))
    raise Undecided(f'constructor of {t} from {[type(v).__name__ for v in vals]}')
