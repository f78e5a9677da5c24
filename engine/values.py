"""Types and symbolic values of the VC generator (see DESIGN.md, 'Engine')."""
import z3

MAXLEN = 1 << 60          # assumed bound on container sizes (std::vector::max_size is smaller)


class Undecided(Exception):
    """The checker cannot decide (unsupported construct, lost structure): never a violation."""


_typecache = {}


class Ty:
    """A C++ type as emitted by cxx2json."""

    def __init__(self, d, tab, tid):
        self.tid = tid
        self.k = d['k']
        self.s = d['s']
        self.w = d.get('w')
        self.sg = d.get('sg', False)
        self.n = d.get('n') if self.k in ('rec', 'enum') else None
        self.raw = d
        self.tab = tab

    def __repr__(self):
        return self.s

    @property
    def args(self):
        return [self.tab.ty(a['t']) if 't' in a else int(a['v']) if 'v' in a else None
                for a in self.raw.get('a', [])]

    @property
    def elem(self):
        return self.tab.ty(self.raw['e'])

    @property
    def isconst(self):
        return self.raw.get('c', False)

    @property
    def isint(self):
        return self.k in ('int', 'enum')

    def deref(self):
        t = self.elem if self.k == 'ref' else self
        if t.k == 'rec' and t.n in ('Eigen::MatrixBase', 'Eigen::DenseBase', 'Eigen::PlainObjectBase', 'Eigen::EigenBase'):
            a = t.args        # the CRTP bases of a plain matrix
            if a and isinstance(a[0], Ty) and a[0].is_mat:
                return a[0]
        return t

    @property
    def is_vec(self):
        return self.k == 'rec' and self.n in ('std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::queue', 'std::stack',
                                              'std::initializer_list', 'std::array') or self.k == 'arr'

    @property
    def velem(self):
        return self.elem if self.k == 'arr' else self.args[0]

    @property
    def is_pair(self):
        return self.k == 'rec' and self.n == 'std::pair'

    @property
    def is_map(self):
        return self.k == 'rec' and self.n in ('std::map', 'std::unordered_map')

    @property
    def is_set(self):
        return self.k == 'rec' and self.n in ('std::set', 'std::unordered_set')

    @property
    def is_pq(self):
        return self.k == 'rec' and self.n == 'std::priority_queue'

    @property
    def is_fun(self):
        return self.k == 'rec' and self.n == 'std::function'

    @property
    def is_mat(self):
        return self.k == 'rec' and self.n in ('Eigen::Matrix', 'Eigen::Array', 'Eigen::Transform', 'Eigen::Quaternion', 'Eigen::Translation', 'Eigen::AngleAxis')

    @property
    def mshape(self):
        """(rows, columns) of a matrix-like Eigen type; a transform is stored as its homogeneous matrix, a quaternion as x y z w"""
        if self.n == 'Eigen::Transform':
            return self.args[1] + 1, self.args[1] + 1
        if self.n in ('Eigen::Quaternion', 'Eigen::AngleAxis'):      # an angle-axis is stored as axis x y z, angle
            return 4, 1
        if self.n == 'Eigen::Translation':
            return self.args[1], 1
        return self.args[1], self.args[2]

    @property
    def is_struct(self):
        return self.k == 'rec' and ('rec' in self.raw or self.is_pair)

    def fields(self):
        """[(name, Ty)] including inherited ones"""
        if self.is_pair:
            return [('first', self.args[0]), ('second', self.args[1])]
        r = self.tab.records[self.raw['rec']]
        out = []
        for b in r['bases']:
            bt = self.tab.ty(b)
            if bt.is_struct:
                out += bt.fields()
        return out + [(f['n'], self.tab.ty(f['t'])) for f in r['fields']]

    def field_inits(self):
        if self.is_pair:
            return {}
        r = self.tab.records[self.raw['rec']]
        out = {}
        for b in r['bases']:
            bt = self.tab.ty(b)
            if bt.is_struct:
                out.update(bt.field_inits())
        out.update({f['n']: f['init'] for f in r['fields'] if 'init' in f})
        return out

    def callops(self):
        return self.tab.records[self.raw['rec']].get('callop', []) if 'rec' in self.raw else []


# ---------------------------------------------------------------- values

class VV:
    """vector-like value: length + array of packed elements"""
    __slots__ = ('ty', 'len', 'arr')

    def __init__(self, ty, ln, arr):
        self.ty, self.len, self.arr = ty, ln, arr

    @property
    def et(self):
        return self.ty.velem


class SV:
    """struct value"""
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, f


class MV:
    """map value: domain predicate, value array, size"""
    __slots__ = ('ty', 'dom', 'val', 'size')

    def __init__(self, ty, dom, val, size):
        self.ty, self.dom, self.val, self.size = ty, dom, val, size


class FM:
    """fixed size matrix: e[r][c] (z3 terms)"""
    __slots__ = ('e', 'ty')

    def __init__(self, e, ty=None):
        self.e, self.ty = e, ty

    @property
    def r(self):
        return len(self.e)

    @property
    def c(self):
        return len(self.e[0])


class DM:
    """dynamic matrix: rows, cols, Array(Int, Array(Int, scalar))"""
    __slots__ = ('rows', 'cols', 'arr', 'ty')

    def __init__(self, rows, cols, arr, ty=None):
        self.rows, self.cols, self.arr, self.ty = rows, cols, arr, ty


class Ptr:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Iter:
    """iterator into a vector-like lvalue (idx), or into a map (key, at_end)"""
    __slots__ = ('lv', 'idx', 'kind', 'key', 'found', 'rev')

    def __init__(self, lv, idx=None, kind='vec', key=None, found=None, rev=False):
        self.lv, self.idx, self.kind, self.key, self.found, self.rev = lv, idx, kind, key, found, rev


class Clo:
    __slots__ = ('fn', 'caps', 'this', 'cls', 'node')

    def __init__(self, fn, caps, this, cls=None, node=None):
        self.fn, self.caps, self.this, self.cls, self.node = fn, caps, this, cls, node


class UFun:
    """an unknown pure function (std::function parameter)"""
    __slots__ = ('name', 'ret', 'params', 'fn', 'hook')

    def __init__(self, name, ret, params, fn=None):
        self.name, self.ret, self.params, self.fn, self.hook = name, ret, params, fn, None


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what=''):
        self.what = what


class LV:
    __slots__ = ('sid', 'acc')

    def __init__(self, sid, acc=()):
        self.sid, self.acc = sid, tuple(acc)

    def ext(self, *a):
        return LV(self.sid, self.acc + a)

    def __eq__(self, o):
        return isinstance(o, LV) and self.sid == o.sid and len(self.acc) == len(o.acc) and all(
            a[0] == b[0] and (a[1] is b[1] if not hasattr(a[1], 'eq') else (hasattr(b[1], 'eq') and a[1].eq(b[1])))
            if a[0] != 'f' else a[1] == b[1] for a, b in zip(self.acc, o.acc))

    def __hash__(self):
        return hash((self.sid, len(self.acc)))


def is_z3(v):
    return isinstance(v, z3.ExprRef)


_ctor_n = [0]


class _D:
    """datatype declaration whose constructor and accessors have globally unique names (the SMT text needs that); the plain
    names stay available as attributes"""

    def __init__(self, nm):
        self.d = z3.Datatype(nm)
        self.nm, self.fs = nm, []
        _ctor_n[0] += 1
        self.n = _ctor_n[0]
        self.names = []

    def declare(self, c, *fs):
        self.names = [c] + [f for f, _ in fs]
        self.fs = list(fs)
        self.d.declare(f'{c}.{self.n}', *[(f'{f}.{self.n}', s) for f, s in fs])


_made = {}


def _create(d):
    """z3 identifies datatypes by name: the same declaration is made once per process, and a different one of the same name gets another"""
    key = (d.nm, tuple((f, str(s)) for f, s in d.fs))
    if key in _made:
        return _made[key]
    if any(k[0] == d.nm for k in _made):
        d.d.name = f'{d.nm}#{d.n}'
    r = _made[key] = d.d.create()
    for n in d.names:
        setattr(r, n, getattr(r, f'{n}.{d.n}'))
    return r


class Sorts:
    """packs values into z3 sorts (for storage in arrays) and back"""

    def __init__(self, ints='int', reals='real'):
        self.ints, self.reals = ints, reals
        self.cache = {}
        self.byname = {}

    def scalar(self, t):
        if t.k == 'bool':
            return z3.BoolSort()
        if t.isint:
            return z3.IntSort() if self.ints == 'int' else z3.BitVecSort(t.w)
        if t.k == 'float':
            if self.reals == 'real':
                return z3.RealSort()
            return z3.Float64() if t.w == 64 else z3.Float32()
        return None

    def index(self):
        return z3.IntSort() if self.ints == 'int' else z3.BitVecSort(64)

    def sort(self, t):
        if t.k == 'ref':
            return self.sort(t.elem)
        s = self.scalar(t)
        if s is not None:
            return s
        key = self.key(t)
        if key in self.cache:
            return self.cache[key]
        nm = key
        u = len(self.cache)
        if t.is_vec:
            d = _D(nm)
            d.declare('mk', ('len', self.index()), ('arr', z3.ArraySort(self.index(), self.sort(t.velem))))
            r = _create(d)
        elif t.is_map:
            d = _D(nm)
            ks = self.sort(t.args[0])
            d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, self.sort(t.args[1]))),
                      ('size', self.index()))
            r = _create(d)
        elif t.is_mat:
            rr, cc = t.mshape
            sc = self.scalar(t.args[0])
            d = _D(nm)
            if rr > 0 and cc > 0:
                d.declare('mk', *[(f'm{i}_{j}', sc) for i in range(rr) for j in range(cc)])
            else:
                d.declare('mk', ('rows', z3.IntSort()), ('cols', z3.IntSort()),
                          ('arr', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), sc))))
            r = _create(d)
        elif t.is_struct:
            fs = t.fields()
            d = _D(nm)
            if fs:
                d.declare('mk', *[('f_' + n, self.sort(ft)) for n, ft in fs])
            else:
                d.declare('mk')
            r = _create(d)
        elif t.k == 'rec' or t.k in ('ptr', 'other', 'fn'):
            r = z3.DeclareSort(nm)
        else:
            raise Undecided(f'no sort for type {t}')
        self.cache[key] = r
        return r

    def key(self, t):
        if t.k == 'ref':
            return self.key(t.elem)
        if t.is_vec:
            return 'Vec<' + self.key(t.velem) + '>'
        if t.is_map:
            return 'Map<' + self.key(t.args[0]) + ',' + self.key(t.args[1]) + '>'
        if t.is_pair:
            return 'Pair<' + self.key(t.args[0]) + ',' + self.key(t.args[1]) + '>'
        return t.s

    def pack(self, t, v):
        if t.k == 'ref':
            t = t.elem
        if is_z3(v):
            return v
        s = self.sort(t)
        if isinstance(v, VV):
            return s.mk(v.len, v.arr)
        if isinstance(v, MV):
            return s.mk(v.dom, v.val, v.size)
        if isinstance(v, FM):
            return s.mk(*[x for row in v.e for x in row])
        if isinstance(v, DM):
            return s.mk(v.rows, v.cols, v.arr)
        if isinstance(v, SV):
            fs = t.fields()
            return s.mk(*[self.pack(ft, v.f[n]) for n, ft in fs]) if fs else s.mk
        raise Undecided(f'cannot store a {type(v).__name__} of type {t}')

    def unpack(self, t, x):
        if t.k == 'ref':
            t = t.elem
        if self.scalar(t) is not None:
            return x
        s = self.sort(t)
        simp = _acc
        if t.is_vec:
            return VV(t, simp(s, 'len', x), simp(s, 'arr', x))
        if t.is_map:
            return MV(t, simp(s, 'dom', x), simp(s, 'val', x), simp(s, 'size', x))
        if t.is_mat:
            rr, cc = t.mshape
            if rr > 0 and cc > 0:
                return FM([[simp(s, f'm{i}_{j}', x) for j in range(cc)] for i in range(rr)], t)
            return DM(simp(s, 'rows', x), simp(s, 'cols', x), simp(s, 'arr', x), t)
        if t.is_struct:
            return SV(t, {n: self.unpack(ft, simp(s, 'f_' + n, x)) for n, ft in t.fields()})
        return x


def _acc(s, name, x):
    """accessor application with constructor folding"""
    f = getattr(s, name)
    if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        c = s.constructor(0)
        for i in range(c.arity()):
            if s.accessor(0, i).eq(f):
                return x.arg(i)
    return f(x)
