"""C27: multitaper deconvolution (rf.deconvolve.deconv_multitaper)

The function runs on arrays of which the verifier knows facts that all arrays of this kind share (class H): the power of
the common factor of source, responses and noise they carry, the inputs they depend on, their length, and for spectra the
phase, as sum of unknown phases of the tapered wavelet and a delay.  Loops are verified with inferred invariants, which are
checked again for an arbitrary iteration."""
import sys
import types
from fractions import Fraction
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
Unsupported = core.Unsupported
ROW = z3.Int('row!')


class Conflict(object):
    """different values came together"""

    def __repr__(self):
        return 'conflict'


CON = Conflict()


def term(x):
    return z3.simplify(lift(x).t)


def subst(x, a, b):
    if isinstance(x, SNum):
        return SNum(z3.substitute(x.t, (a, b)))
    return x


def same(a, b):
    if a is b:
        return True
    if a is None or b is None or a is CON or b is CON:
        return False
    return bool(holds(veq(a, b)))


class Facts(object):
    """what is known about an array"""
    FIELDS = ('zero', 'deg', 'deps', 'tag', 'taper', 'delay', 'phase', 'sign', 'space', 'part', 'base', 'factor', 'real')

    def __init__(self, **k):
        self.zero = False
        self.deg = 0            # power of the common factor
        self.deps = frozenset()   # inputs, (name, index)
        self.tag = None         # wavelet in the samples
        self.taper = None
        self.delay = None       # samples
        self.phase = {}         # of a spectrum: unknown phases, key -> (power, tag, taper)
        self.sign = 1           # of the real factor
        self.space = 'time'
        self.part = None        # real or imaginary part of which spectrum
        self.base = None        # identity of the samples
        self.factor = 1         # times the samples of base
        self.real = True
        self.__dict__.update(k)
        if self.base is None:
            self.base = (fresh_id(), None)

    def but(self, **k):
        return Facts(**dict(self.__dict__, **dict(k, base=k.get('base', (fresh_id(), None)), factor=k.get('factor', 1))))

    def at(self, a, b):
        """for index b instead of a"""
        if z3.eq(a, b):
            return self
        f = Facts(**self.__dict__)
        f.deps = frozenset((n, term(subst(SNum(i), a, b)) if i is not None else None) for n, i in self.deps)
        for k in ('tag', 'taper', 'delay', 'factor'):
            v = getattr(self, k)
            if isinstance(v, tuple):
                v = tuple(subst(x, a, b) for x in v)
            setattr(f, k, subst(v, a, b))
        if self.phase is not CON:
            f.phase = phases([(p, tuple(subst(x, a, b) for x in tag) if tag else tag, subst(t, a, b))
                              for p, tag, t in self.phase.values()])
        n, i = self.base
        f.base = (n, None if i is None else term(subst(SNum(i), a, b)))
        if isinstance(self.part, tuple):
            f.part = self.part
        return f

    def same(self, o):
        if self.zero or o.zero:
            return self.zero == o.zero
        return (self.deg == o.deg and self.deps == o.deps and same_tag(self.tag, o.tag) and
                self.space == o.space and
                (self.taper is o.taper or same(self.taper, o.taper)) and same_delay(self.delay, o.delay) and
                same_phase(self.phase, o.phase) and self.sign == o.sign and self.part == o.part and self.real == o.real)


def same_tag(a, b):
    if a is None or b is None or a is CON or b is CON:
        return a is b
    return a[0] == b[0] and all(same(x, y) for x, y in zip(a[1:], b[1:]))


def same_delay(a, b):
    if a is None or b is None:
        return a is b
    return a is b or same(a, b)


def same_phase(a, b):
    if a is CON or b is CON:
        return a is b
    return {k: v[0] for k, v in a.items()} == {k: v[0] for k, v in b.items()}


def phases(items):
    d = {}
    for p, tag, t in items:
        key = (tag and (tag[0],) + tuple(term(x).sexpr() for x in tag[1:]), None if t is None else term(t).sexpr())
        p += d.get(key, (0,))[0]
        if p:
            d[key] = (p, tag, t)
        else:
            d.pop(key, None)
    return d


IDS = [0]


def fresh_id():
    IDS[0] += 1
    return IDS[0]


def join(a, b, cancel=False):
    """facts of an array that is one or the other, or the sum of both (cancel: they may cancel out each other)"""
    if a is b:
        return a
    if a.zero:
        return b
    if b.zero:
        return a
    f = Facts()
    f.deg = a.deg if a.deg == b.deg else CON
    f.deps = a.deps | b.deps
    f.tag = a.tag if same_tag(a.tag, b.tag) else CON
    f.taper = a.taper if a.taper is b.taper or same(a.taper, b.taper) else CON
    f.delay = a.delay if same_delay(a.delay, b.delay) else CON
    f.phase = a.phase if same_phase(a.phase, b.phase) else CON
    f.sign = a.sign if a.sign == b.sign else CON
    f.space = a.space
    f.real = a.real and b.real
    need(a.space == b.space, 'sum of samples and spectrum')
    f.part = a.part if a.part == b.part else None
    return f


def add(a, b):
    if a.zero or b.zero:
        return join(a, b)
    if a.part and b.part and {a.part[0], b.part[0]} == {'re2', 'im2'} and a.part[1] == b.part[1]:
        # squared absolute value
        return a.but(part=None, phase={}, delay=lift(0), sign=1, tag=None, taper=None)
    f = join(a, b, True)
    f.part = None
    return f


def mul(a, b):
    if a.zero or b.zero:
        return a if a.zero else b
    need(a.space == b.space or a.space == 'const' or b.space == 'const', 'product of samples and spectrum')
    f = Facts(space=a.space if a.space != 'const' else b.space)
    f.deg = CON if CON in (a.deg, b.deg) else a.deg + b.deg
    f.deps = a.deps | b.deps
    f.real = a.real and b.real
    f.sign = CON if CON in (a.sign, b.sign) else a.sign * b.sign
    if a.part or b.part:
        if a.part and a.part == b.part and a.part[0] in ('re', 'im'):
            f.part = (a.part[0] + '2', a.part[1])
        f.phase, f.delay = CON, CON
        return f
    if f.space == 'time':
        # window times samples
        f.tag = a.tag if b.tag is None else b.tag if a.tag is None else CON
        f.taper = a.taper if b.taper is None else b.taper if a.taper is None else CON
        f.delay = a.delay if b.tag is None else b.delay if a.tag is None else CON
        return f
    f.phase = CON if CON in (a.phase, b.phase) else phases(list(a.phase.values()) + list(b.phase.values()))
    f.delay = CON if CON in (a.delay, b.delay) else lift(a.delay) + lift(b.delay)
    return f


def scale(a, s):
    """times a number"""
    if a.zero:
        return a
    sign = 1 if holds(s > 0) else -1 if holds(s < 0) else None
    if sign is None:
        # zero or of any sign
        sign = CON
    f = Facts(**a.__dict__)
    f.factor = lift(a.factor) * s
    f.sign = CON if CON in (a.sign, sign) else a.sign * sign
    f.part = None
    if a.part:
        f.part = a.part if sign == 1 and holds(veq(s, 1)) else None
    return f


def power(a, n):
    need(isinstance(n, int) and n >= 1, 'power of an array')
    f = a
    for _ in range(n - 1):
        f = mul(f, a)
    return f


def root(a):
    if a.zero:
        return a
    need(same_phase(a.phase, {}) and a.space == 'freq' and a.sign == 1, 'root')
    return a.but(deg=a.deg if a.deg is CON else Fraction(a.deg, 2), part=None)


def conj(a):
    if a.zero:
        return a
    need(a.part is None, 'conjugate')
    if a.real:
        return a
    return a.but(phase=CON if a.phase is CON else phases([(-p, t, k) for p, t, k in a.phase.values()]),
                 delay=CON if a.delay is CON else -lift(a.delay))


def invert(E, a):
    """1 / a, proved not to vanish where it is a sum of squares"""
    E.prove('finite', not a.zero and same_phase(a.phase, {}) and a.delay is not CON and a.sign == 1 and
            a.space == 'freq' and holds(veq(lift(a.delay), 0)))
    return a.but(deg=CON if a.deg is CON else -a.deg)


def real_part(a, what):
    if a.zero or a.real:
        return a if what == 're' else Facts(zero=True)
    if a.space == 'time':
        need(what == 're', 'imaginary part of samples')
        return a.but(real=True)
    if same_phase(a.phase, {}) and same_delay(a.delay, lift(0)) and what == 're':
        return a.but(real=True)
    need(isinstance(a.base, tuple) and a.factor == 1 or True, 'part')
    return a.but(part=(what, (a.base, str(a.factor))), real=True)


def absolute(a):
    if a.zero:
        return a
    f = a.but(phase={}, delay=lift(0), sign=1, real=True, base=a.base, factor=abs_(a.factor)) if a.space == 'freq' else \
        a.but(delay=CON, sign=1, base=a.base, factor=abs_(a.factor), tag=CON)
    f.part = ('abs', None)
    return f


def abs_(x):
    return abs(x) if not isinstance(x, SNum) else ite(x >= 0, x, -x)


class World(object):
    """what belongs to one path"""


W = World()


class H(object):
    """array with known facts"""
    __array_ufunc__ = None

    def __init__(self, n, facts, owner=None, view=None):
        self.n, self.f, self.owner, self.view = n, facts, owner, view
        self.number = len(W.objects)
        W.objects.append(self)
        need(len(W.objects) < 4000, 'arrays')

    def length(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    ndim = 1

    @property
    def T(self):
        return self

    def __iter__(self):
        raise Unsupported('samples of an array one by one')

    def __bool__(self):
        raise Unsupported('truth value of an array')

    # values
    def like(self, f):
        return H(self.n, f)

    @property
    def real(self):
        return self.like(real_part(self.f, 're'))

    @property
    def imag(self):
        return self.like(real_part(self.f, 'im'))

    def conj(self):
        return self.like(conj(self.f))
    conjugate = conj

    def copy(self):
        return self.like(self.f)
    __copy__ = copy

    def astype(self, t, **k):
        return self.copy()

    def __abs__(self):
        return self.like(absolute(self.f))

    def __neg__(self):
        return self.like(scale(self.f, lift(-1)))

    def __pos__(self):
        return self.copy()

    def binary(self, o, op):
        if isinstance(o, Matrix):
            return NotImplemented
        if isinstance(o, H):
            W.E.prove('length', veq(self.n, o.n))
            return self.like(op(self.f, o.f))
        if isinstance(o, Value):
            # samples with another level keep what is known of them
            f = self.f
            need(op in (plus, less) and f.space == 'time', 'array with a value of data')
            if f.zero:
                raise Unsupported('level of nothing')
            return self.like(f.but(deg=f.deg if f.deg == o.deg else CON, deps=f.deps | o.deps))
        if isinstance(o, (int, float, SNum)):
            return self.like(op(self.f, lift(o)))
        raise Unsupported('array with %s' % type(o).__name__)

    def mean(self):
        need(not self.f.zero, 'mean of nothing')
        return Value(self.f)

    def __add__(self, o):
        return self.binary(o, plus)
    __radd__ = __add__

    def __sub__(self, o):
        return self.binary(o, less)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        return self.binary(o, times)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.binary(o, over)

    def __rtruediv__(self, o):
        return self.like(times(invert(W.E, self.f), lift(o)))

    def __pow__(self, n):
        f = self.f
        if f.part and f.part[0] == 'abs' and n == 2:
            return self.like(mul(f.but(part=None), f.but(part=None)))
        return self.like(power(f, n))

    # changes
    def change(self, f):
        top = self
        if self.owner is not None:
            W.E.prove('inputs', False)
        if self.view is not None:
            need(isinstance(self.view[0], Matrix), 'change of a part of an array')
            m, i = self.view
            m.put(i, f)
        top.f = f

    def __iadd__(self, o):
        self.change((self + o).f)
        return self

    def __isub__(self, o):
        self.change((self - o).f)
        return self

    def __imul__(self, o):
        self.change((self * o).f)
        return self

    def __itruediv__(self, o):
        self.change((self / o).f)
        return self

    # parts
    def shape_of(self, key):
        return SArr.symbolic(W.E.name('shape'), lift(self.n))[key].shape[0]

    def __getitem__(self, key):
        need(isinstance(key, slice), 'one sample of an array')
        f = self.f
        n = self.shape_of(key) if f.deps else E_window(key)
        if key.step is not None and not (isinstance(key.step, int) and key.step == 1):
            need(key.start is None and key.stop is None and key.step == -1, 'slice')
            f = f.but(delay=f.delay if f.delay is None or f.delay is CON else self.n - 1 - lift(f.delay))
        elif key.start is not None and f.delay is not None and f.delay is not CON:
            need(holds(lift(key.start) >= 0), 'slice from the end')
            f = f.but(delay=lift(f.delay) - key.start)
        r = H(n, f, self.owner)
        r.view = self.view or (self, None)
        return r

    def __setitem__(self, key, v):
        E = W.E
        need(isinstance(key, slice) and key.step in (None, 1), 'one sample of an array')
        start = lift(0 if key.start is None else key.start)
        if isinstance(v, H) and not v.f.deps:
            # a window: that it fits is assumed
            need(self.f.zero, 'window in an array that is not empty')
            self.change(v.f)
            return
        if isinstance(v, H):
            E.prove('length', veq(self.shape_of(key), v.n))
            if not holds(veq(self.shape_of(key), self.n)):
                need(self.f.zero, 'part of an array')
            f = v.f
            if not f.zero and f.delay is not None and f.delay is not CON:
                need(holds(start >= 0), 'slice from the end')
                f = f.but(delay=lift(f.delay) + start)
            self.change(f)
            return
        raise Unsupported('array set to %s' % type(v).__name__)


def E_window(key):
    n = W.E.int('window', 1)
    return n


def whole(x, *a):
    """int() of lengths and positions of windows"""
    if not isinstance(x, SNum):
        return stubs.b_int(x, *a)
    if x.isint():
        return x
    names = set()
    todo, seen = [x.t], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(t.decl().name())
        todo += t.children()
    n = W.E.int('whole', 0)
    if not names & W.iterations:
        W.E.assume(n >= 2)
    return n


def plus(a, b):
    if isinstance(b, SNum):
        need(holds(veq(b, 0)) is not None, 'number')
        if holds(veq(b, 0)):
            return a
        # a number has no power of the common factor and is not known to be positive
        return add(a, Facts(space=a.space, sign=1 if holds(b >= 0) else CON, phase={}, delay=lift(0) if a.space == 'freq' else CON))
    return add(a, b)


def less(a, b):
    return plus(a, minus(b))


class Value(object):
    """a number computed from data"""

    def __init__(self, f):
        self.deg, self.deps = f.deg, f.deps

    def __bool__(self):
        raise Unsupported('value of data')


def minus(b):
    return -b if isinstance(b, SNum) else scale(b, lift(-1))


def times(a, b):
    return scale(a, b) if isinstance(b, SNum) else mul(a, b)


def over(a, b):
    if isinstance(b, SNum):
        W.E.prove('finite', NOT(veq(b, 0)))
        return scale(a, div(1, b))
    return mul(a, invert(W.E, b))


class Matrix(object):
    """two-dimensional array, facts of its rows for the row index ROW"""

    def __init__(self, rows, n, f):
        self.rows, self.n, self.f = rows, n, f
        self.written = []       # indices whose row has been assigned
        self.full = False
        self.busy = False
        self.number = len(W.objects)
        W.objects.append(self)

    ndim = 2

    @property
    def shape(self):
        return (self.rows, self.n)

    def length(self):
        return self.rows

    def index(self, i):
        i = SNum(term(i))
        need(i.isint(), 'row index')
        W.E.prove('index', AND(i >= 0, i < self.rows))
        return i

    def row(self, i):
        need(not self.busy, 'rows that are about to change')
        i = self.index(i)
        return H(self.n, self.f.at(ROW, i.t), view=(self, i))

    def __getitem__(self, key):
        if isinstance(key, tuple):
            need(len(key) == 2 and isinstance(key[1], slice), 'index')
            return self.row(key[0])[key[1]] if key[1] != slice(None) else self.row(key[0])
        if isinstance(key, slice):
            need(key == slice(None), 'rows')
            return self
        return self.row(key)

    def put(self, i, f):
        i = self.index(i)
        if self.busy:
            need(self.busy == 'rows' and same(i, self.current), 'another row')
            self.new = f
            return
        if z3.is_const(i.t):
            g = f.at(i.t, ROW) if not z3.is_int_value(i.t) else f
        else:
            g = f
        g = Facts(**g.__dict__)
        g.base, g.factor = (fresh_id(), ROW), 1
        self.f = join(self.f, g)
        if self.f is not g:
            self.f = Facts(**dict(self.f.__dict__, base=(fresh_id(), ROW), factor=1))
        self.written.append(i)

    def __setitem__(self, key, v):
        if isinstance(key, tuple):
            need(len(key) == 2 and isinstance(key[1], slice), 'index')
            if key[1] != slice(None):
                r = self.row(key[0])
                r[key[1]] = v
                return
            key = key[0]
        if isinstance(key, slice):
            need(key == slice(None) and isinstance(v, Matrix), 'rows')
            self.f = v.f
            self.full = self.full or v.full
            return
        need(isinstance(v, H), 'row set to %s' % type(v).__name__)
        W.E.prove('length', veq(v.n, self.n))
        self.put(key, v.f)

    def like(self, f):
        m = Matrix(self.rows, self.n, f)
        m.written, m.full = list(self.written), self.full
        return m

    def binary(self, o, op):
        need(not self.busy, 'rows that are about to change')
        if isinstance(o, Matrix):
            W.E.prove('length', AND(veq(self.n, o.n), veq(self.rows, o.rows)))
            return self.like(op(self.f, o.f))
        if isinstance(o, H):
            W.E.prove('length', veq(self.n, o.n))
            return self.like(op(self.f, o.f))
        if isinstance(o, (int, float, SNum)):
            return self.like(op(self.f, lift(o)))
        raise Unsupported('array with %s' % type(o).__name__)

    def __add__(self, o):
        return self.binary(o, plus)
    __radd__ = __add__

    def __sub__(self, o):
        return self.binary(o, lambda a, b: plus(a, minus(b)))

    def __mul__(self, o):
        return self.binary(o, times)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.binary(o, over)

    def __pow__(self, n):
        f = self.f
        if f.part and f.part[0] == 'abs' and n == 2:
            return self.like(mul(f.but(part=None), f.but(part=None)))
        return self.like(power(f, n))

    def __neg__(self):
        return self.like(scale(self.f, lift(-1)))

    def __abs__(self):
        return self.like(absolute(self.f))

    def inplace(self, r):
        self.f = r.f
        return self

    def __iadd__(self, o):
        return self.inplace(self + o)

    def __isub__(self, o):
        return self.inplace(self - o)

    def __imul__(self, o):
        return self.inplace(self * o)

    def __itruediv__(self, o):
        return self.inplace(self / o)

    @property
    def real(self):
        return self.like(real_part(self.f, 're'))

    @property
    def imag(self):
        return self.like(real_part(self.f, 'im'))

    def conj(self):
        return self.like(conj(self.f))

    def copy(self):
        return self.like(self.f)
    __copy__ = copy

    def __iter__(self):
        raise Unsupported('rows')

    def sum_rows(self):
        f = self.f
        other = f.at(ROW, z3.Int(W.E.name('row')))
        return H(self.n, add(f, other) if not f.zero else f)


class Tapers(object):
    """Slepian tapers, one per row; signs and order are taken as they are before the first use"""

    def __init__(self, K, n):
        self.rows, self.n, self.used, self.numbers = K, n, False, {}

    @property
    def T(self):
        need(not self.used, 'transpose')
        return self

    @property
    def shape(self):
        return (self.rows, self.n)

    def length(self):
        return self.rows

    def __getitem__(self, key):
        if isinstance(key, slice):
            need(key == slice(None), 'tapers')
            return self
        i = lift(key)
        W.E.prove('index', AND(i >= 0, i < self.rows))
        return H(self.n, Facts(taper=i), view=(self, i))

    def put(self, i, f):
        self[i] = H(self.n, f)

    def __setitem__(self, key, v):
        need(not self.used and isinstance(v, H) and not v.f.deps and v.f.deg == 0 and not v.f.zero, 'tapers')
        i = lift(key)
        W.E.prove('index', AND(i >= 0, i < self.rows))
        W.E.prove('length', veq(v.n, self.n))


class Weights(object):
    """eigenvalues of the tapers, positive"""

    def __init__(self, K):
        self.rows = K

    def length(self):
        return self.rows

    def __getitem__(self, key):
        i = lift(key)
        W.E.prove('index', AND(i >= 0, i < self.rows))
        x = SNum(z3.Function('eigenvalue', z3.IntSort(), z3.RealSort())(i.t))
        W.E.assume(x > 0)
        return x

    def __iter__(self):
        raise Unsupported('eigenvalues')


class Inputs(object):
    """list of arrays"""

    def __init__(self, count, n, facts):
        self.count, self.lengths, self.facts = count, n, facts
        self.given = {}

    def length(self):
        return self.count

    def __getitem__(self, i):
        need(not isinstance(i, slice), 'some of the inputs')
        i = lift(i)
        W.E.prove('index', AND(i >= 0, i < self.count))
        return H(self.lengths(i), self.facts(i), owner='input')

    def __setitem__(self, i, v):
        W.E.prove('inputs', False)

    def __iter__(self):
        raise Unsupported('inputs')

    def copy(self):
        raise Unsupported('copy of the list')


class Lazy(object):
    """enumerate and zip"""

    def __init__(self, n, at):
        self.n, self.at = n, at


def items(x):
    """-> number of elements, element i"""
    if isinstance(x, Lazy):
        return x.n, x.at
    if isinstance(x, stubs.SRange):
        return x.n, lambda i: SNum(term(x.a + i))
    if isinstance(x, range):
        need(x.step == 1, 'step of a range')
        return lift(len(x)), lambda i: x.start + i
    if isinstance(x, (Inputs, Tapers, Weights, Matrix)):
        return lift(x.length()), lambda i: x[i]
    if isinstance(x, (list, tuple)):
        need(False, 'concrete list')
    raise Unsupported('loop over %s' % type(x).__name__)


def enumerate_(x, start=0):
    n, at = items(x)
    return Lazy(n, lambda i: (i + start, at(i)))


def zip_(*xs):
    its = [items(x) for x in xs]
    n = its[0][0]
    for m, _ in its[1:]:
        n = n if holds(n <= m) else m if holds(m <= n) else ite(n <= m, n, m)
    return Lazy(n, lambda i: tuple(at(i) for _, at in its))


def frame_of_loop():
    f = sys._getframe(3)        # spec generator, engine, function
    return f.f_locals


class Loops(object):
    """the rule for every loop: an invariant is inferred as the join of what the iterations lead to, then checked for an
    arbitrary iteration and used behind the loop"""

    def get(self, key, default=None):
        return self.rule

    @staticmethod
    def state(loc):
        s = {}
        for o in W.objects:
            if isinstance(o, (H, Matrix)):
                s[o.number] = o.f
        names = {}
        for k, v in loc.items():
            if isinstance(v, (H, Matrix)):
                names[k] = v
            elif isinstance(v, SNum) or isinstance(v, (int, float, type(None), str)):
                names[k] = v
        return s, names

    def rule(self, loc, it, st):
        E = W.E
        if isinstance(it, (list, tuple)) or isinstance(it, range) and len(it) <= 8:
            for x in it:
                st.values = dict(frame_of_loop())
                yield x
            st.values = dict(frame_of_loop())
            return
        if isinstance(it, Matrix):
            yield from self.rows(loc, it, st)
            return
        n, at = items(it)
        key = ('H', tuple(E.taken))
        count = len(W.objects)
        start, names = self.state(loc)
        table = E.registry.setdefault(key, {'objects': {}, 'names': {}, 'written': None, 'closed': False})
        mode = E.choose(3)

        def put_state():
            for o in W.objects[:count]:
                if o.number in table['objects']:
                    o.f = table['objects'][o.number]
            for k, v in names.items():
                if k in table['names']:
                    t = table['names'][k]
                    if isinstance(t, Facts):
                        st.values[k] = H(v.n, t)
                    elif t is CON:
                        st.values.pop(k, None)
                else:
                    st.values[k] = v
        if mode < 2:
            for turn in range(4 if mode == 0 else 1):
                E.assume(n > 0)
                i = E.int('i', 0)
                W.iterations.add(i.t.decl().name())
                E.assume(AND(i >= 0, i < n))
                st.values = {}
                put_state()
                before = {o.number: list(o.written) for o in W.objects[:count] if isinstance(o, Matrix)}
                x = at(i)
                yield x
                now = frame_of_loop()
                grown = False
                for o in W.objects[:count]:
                    if not isinstance(o, (H, Matrix)):
                        continue
                    old = table['objects'].get(o.number, start[o.number])
                    if o.f is not old and not (o.f.same(old) and (not isinstance(o, H) or True)):
                        f = join(old, o.f)
                        if isinstance(o, Matrix):
                            f = Facts(**dict(f.__dict__, base=(fresh_id(), ROW), factor=1))
                        if not f.same(old):
                            grown = True
                        table['objects'][o.number] = f
                    elif o.f is not old and o.number not in table['objects']:
                        table['objects'][o.number] = old.but(base=(fresh_id(), ROW if isinstance(o, Matrix) else None))
                for k, v in names.items():
                    w = now.get(k)
                    if w is st.values.get(k, v) or w is v:
                        continue
                    old = table['names'].get(k)
                    if isinstance(v, H) and isinstance(w, H):
                        need(holds(veq(v.n, w.n)), 'array of another length')
                        old = v.f if old is None else old
                        f = join(old, w.f) if old is not CON else CON
                        if f is not CON and not f.same(old):
                            grown = True
                        table['names'][k] = f if f is CON else f.but()
                    elif isinstance(v, SNum) and isinstance(w, SNum) and holds(veq(v, w)):
                        pass
                    else:
                        if old is not CON:
                            grown = True
                        table['names'][k] = CON
                w = set()
                for o in W.objects[:count]:
                    if isinstance(o, Matrix) and any(same(j, i) for j in o.written[len(before[o.number]):]):
                        w.add(o.number)
                table['written'] = w if table['written'] is None else table['written'] & w
                if mode == 0 and not grown:
                    break
                if mode == 1:
                    need(not grown, 'no invariant found')
            raise core.PathEnd()
        # behind the loop
        st.values = {}
        put_state()
        for o in W.objects[:count]:
            if isinstance(o, Matrix) and o.number in (table['written'] or ()) and same(n, o.rows):
                o.full = True

    def rows(self, loc, m, st):
        """every row once"""
        E = W.E
        start, names = self.state(loc)
        key = ('R', tuple(E.taken))
        table = E.registry.setdefault(key, {})
        if E.choose(2) == 0:
            i = E.int('r', 0)
            E.assume(i < m.rows)
            r = m.row(i)
            m.busy, m.current, m.new = 'rows', i, None
            count = len(W.objects)
            st.values = {k: v for k, v in names.items()}
            yield r
            m.busy = False
            for o in W.objects[:count]:
                if o is not r and o is not m:
                    need(o.f is start.get(o.number, o.f), 'loop over rows changes something else')
            f = (m.new or r.f).at(i.t, ROW)
            if 'f' in table:
                need(table['f'].same(f) and same(table['f'].factor, f.factor) and table['f'].base[1] is not None,
                     'rows changed in several ways')
            table['f'] = f
            raise core.PathEnd()
        st.values = {k: v for k, v in names.items()}
        if 'f' in table:
            b = m.f.base
            f = table['f']
            m.f = f if f.base[1] is not None else m.f


class Library(object):
    """numpy for these arrays"""

    def __init__(self, np):
        self.np = np

    def __getattr__(self, k):
        f = getattr(self.np, k)
        g = getattr(Library, 'do_' + k, None)
        if g is None:
            if callable(f) and not isinstance(f, type):
                def h(*a, **kw):
                    if any(isinstance(x, (H, Matrix, Inputs, Tapers)) for x in a):
                        raise Unsupported('numpy.%s' % k)
                    return f(*a, **kw)
                return h
            return f

        def h(*a, **kw):
            if k in ('zeros', 'arange') or any(isinstance(x, (H, Matrix, Inputs, Tapers)) for x in a):
                return g(*a, **kw)
            return f(*a, **kw)
        return h

    @staticmethod
    def do_zeros(shape, dtype=None, **k):
        if isinstance(shape, (tuple, list)):
            if len(shape) == 2:
                return Matrix(shape[0], shape[1], Facts(zero=True, base=(fresh_id(), ROW)))
            need(len(shape) == 1, 'shape')
            shape = shape[0]
        return H(shape, Facts(zero=True))

    @staticmethod
    def do_zeros_like(x, **k):
        return H(x.n, Facts(zero=True)) if isinstance(x, H) else Matrix(x.rows, x.n, Facts(zero=True, base=(fresh_id(), ROW)))

    @staticmethod
    def do_arange(n, *a, **k):
        need(not a, 'arange')
        return H(n, Facts())

    do_real = staticmethod(lambda x: x.real)
    do_imag = staticmethod(lambda x: x.imag)
    do_conj = staticmethod(lambda x: x.conj())
    do_conjugate = do_conj
    do_abs = staticmethod(lambda x: abs(x))
    do_absolute = do_abs
    do_copy = staticmethod(lambda x: x.copy())
    do_array = staticmethod(lambda x, **k: x.copy() if isinstance(x, (H, Matrix)) else no('array of a list'))
    do_asarray = staticmethod(lambda x, **k: x if isinstance(x, (H, Matrix)) else no('array of a list'))
    do_mean = staticmethod(lambda x: x.mean())
    do_sqrt = staticmethod(lambda x: x.like(root(x.f)))
    do_square = staticmethod(lambda x: x ** 2)
    do_multiply = staticmethod(lambda a, b: a * b)
    do_add = staticmethod(lambda a, b: a + b)
    do_negative = staticmethod(lambda a: -a)
    do_flip = staticmethod(lambda x, axis=None: x[::-1])
    do_flipud = do_flip

    @staticmethod
    def do_roll(x, s, **k):
        need(isinstance(x, H) and not k, 'roll')
        f = x.f
        return x.like(f.but(delay=f.delay if f.delay is None or f.delay is CON else lift(f.delay) + s))

    @staticmethod
    def do_sum(x, axis=None, **k):
        need(isinstance(x, Matrix) and axis == 0 and not k, 'sum')
        return x.sum_rows()

    @staticmethod
    def do_max(x, *a, **k):
        need(not a and not k, 'max')
        E = W.E
        if isinstance(x, Matrix):
            f, i = x.f, E.int('w', 0)
            E.assume(i < x.rows)
            v = Library.do_max(H(x.n, f.at(ROW, i.t)))
            for m in W.reference:
                if f.base[0] is not None:
                    u = Library.do_max(H(x.n, f.at(ROW, lift(m).t)))
                    E.assume(v >= u)
            return v
        f = x.f
        need(f.deg == 0 and not f.zero, 'extreme value of data')
        t = top(f.base)
        if f.part and f.part[0] == 'abs':
            return lift(f.factor) * t
        v = E.real('extreme')
        a = abs_(lift(f.factor)) * t
        E.assume(AND(v <= a, v >= -a))
        return v

    do_amax = do_max

    @staticmethod
    def do_min(x, *a, **k):
        return -Library.do_max(-x)


def no(msg):
    raise Unsupported(msg)


def top(base):
    """largest absolute value of an array that is not zero"""
    n, i = base
    t = SNum(z3.Function('largest', z3.IntSort(), z3.IntSort(), z3.RealSort())(z3.IntVal(n), z3.IntVal(-1) if i is None else i))
    W.E.assume(t > 0)
    return t


def fft(x, *a, **k):
    need(isinstance(x, H) and not a and not k, 'fft')
    f = x.f
    if f.zero:
        return x.copy()
    need(f.space == 'time', 'transform of a spectrum')
    if f.tag is CON or f.taper is CON or f.delay is CON:
        ph, dl = CON, CON
    else:
        need(f.tag is not None, 'transform of a window')
        ph, dl = phases([(1, f.tag, f.taper)]), lift(f.delay)
    return x.like(f.but(space='freq', phase=ph, delay=dl, tag=None, taper=None, real=False))


def ifft(x, *a, **k):
    need(isinstance(x, H) and not a and not k, 'ifft')
    f = x.f
    if f.zero:
        return x.copy()
    need(f.space == 'freq' and f.part is None, 'inverse transform')
    return x.like(f.but(space='time', phase={}, delay=f.delay if same_phase(f.phase, {}) else CON, tag=None, taper=None))


def detrend(x, *a, **k):
    need(isinstance(x, H), 'detrend')
    if k.get('overwrite_data'):
        need(k['overwrite_data'] is True, 'overwrite_data')
        if x.owner is not None:
            W.E.prove('inputs', False)
    need(x.f.space == 'time', 'detrend')
    return x.like(x.f.but())


LIB = ['multitaper.MTSpec(x, nw, kspec): kspec tapers of the length of x (vn, one per column), positive eigenvalues (lamb)',
       'detrend, fft and ifft are linear and return new arrays; they keep the length',
       'real arithmetic: nothing overflows; where source and noise spectra vanish together nothing is claimed (denominator '
       'positive), the result to normalize with is not zero',
       'windows fit: 0 <= olap < 1, tapers have two points at least, two windows at least in source, noise and response; '
       'a taper fits where it is put (numpy raises if not)',
       'time origin under the hypothesis that the windowed spectra of a response that contains the delayed source are those of '
       'the source times the delay phase; a spectrum without negative amplitudes and with linear phase has its largest value at '
       'the delay',
       '_gauss_filter (real, positive) and _phase_shift_filter (delay) enter by their contracts (C12)']


def prepare(E, load):
    global W
    mod = load('rf.deconvolve')
    W.__dict__.clear()
    W.E, W.objects, W.reference, W.iterations = E, [], [], set()
    mod.np = Library(mod.np)
    mod.fft, mod.ifft, mod.detrend = fft, ifft, detrend
    mod.copy = lambda x: x.copy()
    mod.max = lambda x, *a, **k: mod.np.max(x, *a, **k)
    mod.print = lambda *a, **k: None
    mod.enumerate, mod.zip = enumerate_, zip_
    mod.int, mod.round = whole, lambda x, *a: x
    m = types.ModuleType('multitaper')

    class MTSpec(object):
        def __init__(self, x, nw=4., kspec=0, *a, **k):
            need(isinstance(x, H), 'MTSpec')
            self.vn, self.lamb = Tapers(kspec, x.n), Weights(kspec)
    m.MTSpec = MTSpec
    E.loader.stubs = dict(E.loader.stubs, multitaper=m)
    W.filters = []

    def _gauss_filter(dt, nft, f0, *a, **k):
        return H(nft, Facts(space='freq', delay=lift(0), phase={}))

    def _phase_shift_filter(nft, dt, tshift):
        return H(nft, Facts(space='freq', delay=div(tshift, dt), phase={}, real=False))
    mod._gauss_filter, mod._phase_shift_filter = _gauss_filter, _phase_shift_filter
    E.for_specs = Loops()
    return mod


def multitaper(E, load, case):
    mod = prepare(E, load)
    nc, N, L, nn = E.int('ncomp', 1), E.int('nft', 1), E.int('nwav', 1), E.int('nnoise', 1)
    E.assume(AND(L < N, nn <= N))
    sr, tshift = E.real('sr'), E.real('tshift')
    E.assume(sr > 0)
    delay = z3.Function('delay', z3.IntSort(), z3.RealSort())
    rsp = Inputs(nc, lambda i: N, lambda i: Facts(deg=1, deps=frozenset([('rsp', term(i))]), tag=('wavelet',),
                                                  delay=SNum(delay(term(i)))))
    nse = Inputs(nc, lambda i: nn, lambda i: Facts(deg=1, deps=frozenset([('nse', term(i))]), tag=('noise', lift(i)),
                                                   delay=lift(0)))
    src = H(L, Facts(deg=1, deps=frozenset([('src', None)]), tag=('wavelet',), delay=lift(0)), owner='input')
    kw = {}
    K = E.int('K', 1)
    kw['K'] = K
    T, olap = E.real('T'), E.real('olap')
    E.assume(AND(T > 0, olap >= 0, olap < 1))
    kw['T'], kw['olap'] = T, olap
    ref = 0
    if case == 0:
        kw['normalize'] = None
        E.cover('none')
    elif case == 1:
        ref = kw['normalize'] = E.int('normalize', 0)
        E.assume(ref < nc)
        E.cover('index')
    else:
        E.cover('default')
    if E.choose(2):
        kw['gauss'] = E.real('gauss')
        E.assume(kw['gauss'] > 0)
    else:
        kw['gauss'] = None
        E.cover('nogauss')
    W.reference.append(ref)
    E.cover('windows')
    res = mod.deconv_multitaper(rsp, src, nse, sr, tshift, **kw)
    need(isinstance(res, Matrix), 'result is an array')
    E.prove('shape', AND(veq(res.rows, nc), veq(res.n, N)))
    E.prove('rows', res.full)
    r = E.int('result', 0)
    E.assume(r < nc)
    f = res.f.at(ROW, r.t)
    E.prove('scale', f.deg == 0 and not f.zero)
    ok = {('rsp', term(r).sexpr()), ('nse', term(r).sexpr()), ('src', None)}
    E.prove('component', {(a, None if b is None else b.sexpr()) for a, b in f.deps} <= ok)
    E.prove('component', ('rsp', term(r).sexpr()) in {(a, None if b is None else b.sexpr()) for a, b in f.deps})
    E.prove('inputs', src.f.deg == 1)
    E.prove('onset', f.delay is not CON and f.sign == 1)
    if f.delay is not CON and f.delay is not None:
        d = lift(f.delay) - (SNum(delay(r.t)) - tshift * sr)
        E.prove('onset', OR(*[veq(d, m * N) for m in (0, 1, -1, 2, -2)]))
    need(f.base[1] is not None, 'rows of the result')
    if case == 0:
        E.prove('normalized', veq(f.factor, 1))
    else:
        g = res.f.at(ROW, lift(ref).t)
        E.prove('normalized', veq(lift(g.factor) * top(g.base), 1))
        E.prove('normalized', veq(f.factor, g.factor))


EXPECT = ['shape', 'scale', 'component', 'inputs', 'onset', 'finite', 'normalized', 'rows', 'length']


@contract('rf.deconvolve.deconv_multitaper', expect=EXPECT, cover=['none', 'nogauss', 'windows'], assumptions=LIB)
def raw(E, load):
    """for any number of responses, samples, tapers and windows: one array of the length of the responses per response, which
    depends on this response, its noise and the source only; no power of a factor common to all data; divided by positive sums
    of squares only; delayed source at its delay plus shift; normalisation by one positive factor, which makes the largest
    absolute value of the reference 1; inputs unmodified"""
    multitaper(E, load, 0)


@contract('rf.deconvolve.deconv_multitaper', expect=EXPECT, cover=['index', 'nogauss', 'windows'], assumptions=LIB)
def normalized(E, load):
    """the same, normalized with an arbitrary response"""
    multitaper(E, load, 1)


@contract('rf.deconvolve.deconv_multitaper', expect=EXPECT, cover=['default', 'nogauss', 'windows'], assumptions=LIB)
def default(E, load):
    """the same, normalized with the first response"""
    multitaper(E, load, 2)


@contract('rf.deconvolve.deconv_multitaper', expect=['rejected'], cover=['source', 'noise'], assumptions=LIB[:1])
def rejected(E, load):
    """a source not shorter than the response or noise longer than the response is an error"""
    mod = prepare(E, load)
    nc, N, L, nn = E.int('ncomp', 1), E.int('nft', 1), E.int('nwav', 1), E.int('nnoise', 1)
    kind = E.choose(2)
    E.assume(L >= N if kind == 0 else nn > N)
    E.cover('noise' if kind else 'source')
    rsp = Inputs(nc, lambda i: N, lambda i: Facts(deg=1, deps=frozenset([('rsp', term(i))]), tag=('wavelet',), delay=lift(0)))
    nse = Inputs(nc, lambda i: nn, lambda i: Facts(deg=1, deps=frozenset([('nse', term(i))]), tag=('noise', lift(i)), delay=lift(0)))
    src = H(L, Facts(deg=1, deps=frozenset([('src', None)]), tag=('wavelet',), delay=lift(0)), owner='input')
    sr = E.real('sr')
    E.assume(sr > 0)
    try:
        mod.deconv_multitaper(rsp, src, nse, sr, E.real('tshift'))
        E.prove('rejected', False)
    except (AssertionError, ValueError):
        E.prove('rejected', True)
