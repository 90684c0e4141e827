"""C25: plots show the data to scale and never modify it (rf.imaging.plot_rf, plot_profile, plot_harmonics)"""
import sys
import types
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['matplotlib: Axes.plot(x, y) draws the curve through (x, y), fill_between fills between its curves where the mask is '
       'true; an axes shows what is drawn on it; figures and axes do nothing to their arguments',
       'max and min of a generator over traces: bound of all its values and one of them',
       'the stream has traces, all with samples and not all of them zero (scaled by trace: none of them is zero)',
       'RFStream.slice2 enters by its contract (C07), RFStream.stack by its contract (C18)']


class Any(object):
    """what matplotlib returns and rf passes on only"""

    def __init__(self, name='any'):
        self.__dict__['name'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Any(k)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Any(self.name + '()')

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return Any(self.name)


class Axis(Any):
    def __init__(self, ax):
        self.__dict__.update(name='axis', ax=ax)

    def set_major_locator(self, x):
        self.ax.marks.append(x)

    def set_minor_locator(self, x):
        self.ax.marks.append(x)

    def set_major_formatter(self, x):
        self.ax.marks.append(x)


class Axes(Any):
    """records what is drawn"""

    def __init__(self, name, share=()):
        self.__dict__.update(name=name, calls=[], children=[], share=dict(share), marks=[], yaxis=Axis(self), xaxis=Any())

    def record(self, what, a, k):
        self.calls.append((what, a, k))
        return Any(what)

    hook = None

    def plot(self, *a, **k):
        if Axes.hook is not None:
            Axes.hook(self, a)
        return self.record('plot', a, k)

    def fill_between(self, *a, **k):
        return self.record('fill_between', a, k)

    def fill_betweenx(self, *a, **k):
        return self.record('fill_betweenx', a, k)

    def bar(self, *a, **k):
        if Axes.hook is not None:
            Axes.hook(self, a)
        return self.record('bar', a, k)

    def set_xlim(self, *a, **k):
        return self.record('xlim', a, k)

    def set_ylim(self, *a, **k):
        return self.record('ylim', a, k)

    def twiny(self):
        self.children.append(Axes(self.name + '.twiny', dict(y=self)))
        return self.children[-1]

    def twinx(self):
        self.children.append(Axes(self.name + '.twinx', dict(x=self)))
        return self.children[-1]


class Figure(Any):
    def __init__(self):
        self.__dict__.update(name='figure', axes=[], saved=[])

    def add_axes(self, rect, **k):
        self.axes.append(Axes('axes%d' % len(self.axes), k))
        return self.axes[-1]

    def add_subplot(self, *a, **k):
        return self.add_axes(None, **k)

    def savefig(self, *a, **k):
        self.saved.append((a, k))


class Plt(Any):
    def __init__(self):
        self.__dict__.update(name='plt', figures=[], closed=[])

    def figure(self, *a, **k):
        self.figures.append(Figure())
        return self.figures[-1]

    def close(self, fig=None):
        self.closed.append(fig)


class Enum(object):
    """enumerate(x), looked into by the loop rule of the contract only"""

    def __init__(self, x, start=0):
        self.x, self.start = x, start

    def __iter__(self):
        raise core.Unsupported('enumerate')


def library(E):
    m = {}
    for n in ('matplotlib', 'matplotlib.patheffects', 'matplotlib.ticker', 'matplotlib.pyplot'):
        m[n] = types.ModuleType(n)
    for n in ('AutoMinorLocator', 'MaxNLocator'):
        setattr(m['matplotlib.ticker'], n, Any(n))
    for n in ('FixedLocator', 'FixedFormatter'):
        setattr(m['matplotlib.ticker'], n, lambda x, n=n: (n, x))
    m['matplotlib'].patheffects, m['matplotlib'].ticker = m['matplotlib.patheffects'], m['matplotlib.ticker']
    m['matplotlib'].pyplot = m['matplotlib.pyplot']
    E.loader.stubs = dict(E.loader.stubs, **m)


def absmax(a):
    return stubs.np_max(abs(a))


class Pool(object):
    """traces of one stream: A, those with the extreme values the specification speaks of, and any others"""

    def __init__(self, E, make, gaps=('front', 'back')):
        self.E, self.make, self.made, self.snaps, self.give = E, make, [], [], None
        self.A = self.new('A')
        self.gaps = [Gap(g, lambda g=g: self.draw(g)) for g in gaps]
        E.gap_extremum = self.extremum

    def new(self, base):
        t = self.make(base)
        self.made.append(t)
        self.snaps.append(Snap(t))
        return t

    def draw(self, base):
        if self.give is not None:
            return self.give
        return self.new(base)

    def top(self, f, kind='max'):
        """the extreme value of f over all traces"""
        m, w = self.E.real('top'), self.new('W')
        self.E.assume(OR(veq(m, f(self.A)), veq(m, f(w))))
        for t in self.made:
            self.bound(m, f(t), kind)
        self.tops = getattr(self, 'tops', []) + [(m, f, kind)]
        return m

    def bound(self, m, v, kind):
        self.E.assume(m >= v if kind == 'max' else m <= v)

    def value(self, gap, t):
        self.give = t
        try:
            return gap.fresh()
        finally:
            self.give = None

    def extremum(self, ps, kind):
        E = self.E
        gaps = [p for p in ps if isinstance(p, Gap)]
        own = [p for p in ps if not isinstance(p, Gap)]
        need([getattr(g, 'image_of', g) for g in gaps] == self.gaps and len(own) == 1, 'extremum of other elements')
        w = self.new('w')
        for m, f, k in getattr(self, 'tops', ()):
            self.bound(m, f(w), k)
        x = E.real('extremum')
        vs = [own[0]] + [self.value(gaps[0], t) for t in self.made if t is not self.A]
        for v in vs:
            self.bound(x, v, kind)
        E.assume(OR(veq(x, vs[0]), veq(x, vs[-1])))
        for m, f, k in getattr(self, 'tops', ()):
            if k == kind and holds(veq(x, m)):
                return m
        return x

    def unchanged(self, name='data'):
        for t, s in zip(self.made, self.snaps):
            self.E.prove(name, s.headers(t.stats))
            self.E.prove(name, s.samples(t.data))


def local(code):
    """variables of the verified function that is running"""
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_name == code:
            return f.f_locals
        f = f.f_back
    need(False, 'variables of ' + code)


def wiggle(E, name, calls, x, y, base, colors, fill='fill_between', flip=False):
    """the calls draw exactly the curve (x, y), filled to `base` on both sides with the two colours"""
    lines = [c for c in calls if c[0] == 'plot']
    E.prove(name, len(lines) == 1)
    if len(lines) != 1:
        return
    a = lines[0][1]
    k = E.int('sample', 0)
    n = y.shape[0]
    E.assume(k.t < int_t(n))
    gx, gy = a[0], a[1]
    need(isinstance(gx, SArr) and isinstance(gy, SArr), 'what is drawn are arrays')
    E.prove(name, AND(veq(gx.shape[0], n), veq(gy.shape[0], n)))
    E.prove(name, veq(gx.at(k), x.at(k)))
    E.prove('amplitude' if name == 'row' else name, veq(gy.at(k), y.at(k)))
    fills = [c for c in calls if c[0] == fill]
    E.prove('fill', len(fills) == len([c for c in colors if c]))
    if len(fills) != len([c for c in colors if c]):
        return
    t, v = (x, y) if not flip else (y, x)
    for c, up in zip(colors, (True, False)):
        if not c:
            continue
        mine = [f for f in fills if f[2].get('facecolor') == c]
        E.prove('fill', len(mine) == 1)
        if len(mine) != 1:
            continue
        (f,) = mine
        names = dict(zip(('t', 'one', 'two', 'where'), f[1]))
        where = f[2].get('where', names.get('where'))
        two = names.get('two', 0)
        need(isinstance(where, SArr), 'mask of the filled part')
        b = two.at(k) if isinstance(two, SArr) else two
        E.prove('fill', AND(veq(names['t'].at(k), t.at(k)), veq(names['one'].at(k), v.at(k)), veq(b, base)))
        d = names['one'].at(k) - b
        m = where.at(k)
        E.prove('fill', veq(SBool(zb(m)), d >= 0 if up else d < 0))


@contract('rf.imaging.plot_rf', expect=['row', 'amplitude', 'fill', 'data', 'others', 'stack', 'info', 'xlim', 'result', 'axes',
                                        'scale', 'order'],
          cover=['row', 'behind', 'stack', 'nostack', 'several', 'info', 'hidden', 'trim', 'saved'], assumptions=LIB,
          max_paths=12000)
def plot_rf(E, load):
    """an arbitrary trace among any others: drawn once, in its own row, times relative to its onset, amplitudes divided by
    the largest absolute amplitude of the stream (or of the trace) times the scale factor; filled on both sides; headers
    at the same rows; the stack in its own axes only if it is one trace; nothing else is drawn, nothing is modified"""
    library(E)
    mod = load('rf.imaging')
    rs = load('rf.rfstream')
    plt = mod.plt = Plt()
    mod.enumerate = Enum
    kw = {}
    case = E.choose(7)      # one option at a time away from the defaults, and some together
    colors = ('black', 'gray')
    if case == 1:
        kw['trace_scale'] = True
    elif case == 2:
        kw['show_traces'] = False
    elif case == 3:
        colors = kw['fillcolors'] = ((None, 'b'), ('r', None), (None, None))[E.choose(3)]
    elif case == 4:
        kw['info'] = (None, (('back_azimuth', 'label', 'b'),), (('slowness', 'label', 'r'), ('distance', 'label2', 'g')))[E.choose(3)]
    elif case == 5:
        kw['scale_factor'] = E.real('factor')
        kw['fname'] = 'file'
    elif case == 6:
        kw.update(trace_scale=True, scale_factor=E.real('factor'), show_vlines=True, info=())
    trim = E.choose(2)
    factor = kw.get('scale_factor', 1)
    heads = ('onset', 'back_azimuth', 'slowness', 'distance')

    def make(base):
        t = trace(E, rs.RFTrace, base, npts=E.int(base + '.npts', 1), present=heads, unknown=())
        if kw.get('trace_scale'):
            E.assume(NOT(veq(absmax(t.data), 0)))
        return t
    pool = Pool(E, make)
    shown = stream(rs.RFStream, [pool.gaps[0], pool.A, pool.gaps[1]])
    given = shown
    if trim:
        given = stream(rs.RFStream, [traces(E, rs.RFTrace, 'given', present=heads), trace(E, rs.RFTrace, 'G', present=heads)])
        sliced = []

        def slice2(*a, **k):
            sliced.append((a, k))
            return shown
        object.__setattr__(given, 'slice2', slice2)
        lo, hi = E.real('trim0'), E.real('trim1')
        kw['trim'] = (lo, hi)
        E.cover('trim')
    top = pool.top(lambda t: absmax(t.data))
    E.assume(NOT(veq(top, 0)))
    mod._label = lambda s: 'label'
    if 'fillcolors' not in kw:
        kw['fillcolors'] = colors
    kind = E.choose(4)
    stacked = trace(E, rs.RFTrace, 'stacked', npts=E.int('stacked.npts', 1), present=heads)

    def stack():
        if kind == 0:
            raise ValueError('different number of samples')
        E.assume(veq(stacked.data.shape[0], last[0].data.shape[0]))     # all traces have the same length
        return stream(rs.RFStream, [[], [stacked], [stacked, trace(E, rs.RFTrace, 'stacked2', present=heads)]][kind - 1])
    object.__setattr__(shown, 'stack', stack)
    show = kw.get('show_traces', True)
    last, lim = [], []

    def loop(loc, it, st):
        need(isinstance(it, Enum) and it.x is shown and it.start == 0, 'loop over the numbered traces')
        n = shown.traces.length()
        a, b = E.real('xmin'), E.real('xmax')
        E.assume(AND(a <= 0, b >= 0))
        E.prove('xlim', AND(*[veq(v, 0) for v in loc['xlim']]))
        st.values['xlim'] = (a, b)
        if kw.get('trace_scale') and show:
            st.values['max_'] = E.real('previous')
        else:
            if show:
                E.prove('scale', veq(loc['max_'], top))
            st.values['max_'] = loc['max_']
        before = {id(x): len(x.calls) for x in plt.figures[-1].axes}
        if E.choose(2) == 0:
            i = E.int('row', 0)
            E.assume(i.t < int_t(n))
            x = pool.new('x')
            pool.bound(top, absmax(x.data), 'max')
            sn = Snap(x)
            yield (i, x)
            now = local('plot_rf')
            t = x.times(reftime=x.stats.onset)
            scale = absmax(x.data) if kw.get('trace_scale') else top
            axes = plt.figures[-1].axes
            for ax in axes:
                calls = ax.calls[before.get(id(ax), 0):]
                if show and ax is axes[0]:
                    y = SArr(x.data.shape, lambda k: div(x.data.at(k), scale) * factor + (i + 1), 'f')
                    wiggle(E, 'row', calls, t, y, i + 1, colors)
                else:
                    E.prove('others', calls == [])
            E.prove('xlim', AND(now['xlim'][0] <= a, now['xlim'][0] <= t.at(0), now['xlim'][1] >= b,
                                now['xlim'][1] >= t.at(x.data.shape[0] - 1), now['xlim'][0] <= 0, now['xlim'][1] >= 0))
            if not (kw.get('trace_scale') and show):
                E.prove('scale', veq(now['max_'], loc['max_']))
            E.prove('data', AND(sn.headers(x.stats), sn.samples(x.data)))
            E.cover('row')
            raise core.PathEnd()
        x = pool.new('last')
        st.values['times'] = x.times(reftime=x.stats.onset)
        st.values['i'], st.values['tr'] = n - 1, x
        last.append(x)
        lim.append((a, b))
        E.cover('behind')
    E.for_specs = {'rf.imaging.plot_rf:0': loop}
    heads_of, probe = {}, pool.new('h')

    def look(ax, a):
        if last and a and isinstance(a[0], list):
            ps = parts_of(a[0])
            E.prove('order', len(ps) == 3 and [getattr(p, 'image_of', None) for p in ps[::2]] == pool.gaps)
            heads_of.setdefault(id(ax), []).append((pool.value(ps[0], probe), ps[1]))
    Axes.hook = staticmethod(look)
    gs = Snap(given.traces.parts[1]) if trim else None
    f = getattr(mod.plot_rf, '__wrapped__', mod.plot_rf)
    res = f(given, **kw)
    need(len(last) == 1, 'loop over the traces')
    E.prove('result', len(plt.figures) == 1)
    fig = plt.figures[0]
    if kw.get('fname'):
        E.prove('result', res is None and len(fig.saved) == 1 and fig.saved[0][0][0] == 'file' and plt.closed == [fig])
        E.cover('saved')
    else:
        E.prove('result', res is fig and not fig.saved and not plt.closed)
    if trim:
        E.prove('data', len(sliced) == 1 and sliced[0][1] == {'reftime': 'onset'})
        E.prove('data', AND(veq(sliced[0][0][0], lo), veq(sliced[0][0][1], hi)))
        g = given.traces.parts[1]
        E.prove('data', AND(gs.headers(g.stats), gs.samples(g.data)))
    pool.unchanged()
    # the axes behind the loop: traces, headers, stack
    axes = list(fig.axes)
    info = kw.get('info', DEFAULT)
    if not show:
        info = None
        E.cover('hidden')
    info = list(info or ())
    want = show + bool(info) + (kind == 2)
    E.prove('axes', len(axes) == want)
    if len(axes) != want:
        return
    if show:
        first = axes.pop(0)
        E.prove('others', [c for c in first.calls if c[0] not in ('xlim', 'ylim')] == [])
        xl = [c for c in first.calls if c[0] == 'xlim']
        E.prove('xlim', len(xl) == 1 and len(xl[0][1]) == 2)
        E.prove('xlim', AND(veq(xl[0][1][0], lim[0][0]), veq(xl[0][1][1], lim[0][1])))
    if info:
        ax = axes.pop(0)
        E.prove('info', ax.share.get('sharey') is first and len(ax.children) == len(info) - 1)
        for k, (header, label, color) in enumerate(info):
            a = ax if k == 0 else ax.children[k - 1]
            lines = [c for c in a.calls if c[0] != 'xlim']
            E.prove('info', len(lines) == 1 and lines[0][0] == 'plot')
            if len(lines) != 1:
                continue
            vals, rows = lines[0][1][:2]
            need(id(a) in heads_of, 'headers are a list')
            E.prove('info', veq(heads_of[id(a)][0][1], pool.A.stats[header]))
            E.prove('info', veq(heads_of[id(a)][0][0], probe.stats[header]))
            r = E.int('r', 0)
            E.assume(r.t < int_t(shown.traces.length()))
            E.prove('info', AND(veq(rows.shape[0], shown.traces.length()), veq(rows.at(r), r + 1)))
        E.cover('info')
    if kind == 2:
        ax = axes.pop(0)
        E.prove('stack', 'sharex' not in ax.share or show and ax.share['sharex'] is first)
        wiggle(E, 'stack', ax.calls, last[0].times(reftime=last[0].stats.onset), stacked.data, 0, colors)
        E.cover('stack')
    else:
        E.cover('several' if kind == 3 else 'nostack')


DEFAULT = (('back_azimuth', 'baz', 'C0'), ('distance', 'dist', 'C3'))


@contract('rf.imaging.plot_profile', expect=['row', 'fill', 'data', 'others', 'result', 'axes', 'scale', 'depth', 'hist', 'order',
                                             'limits', 'rejected'],
          cover=['row', 'behind', 'depth', 'deep', 'hist', 'trim', 'saved', 'rejected', 'nomodel'], assumptions=LIB + [
              'SimpleModel.calculate_delay_times enters by its contract (C16), np.interp is a function of its arguments',
              'ticker.FixedLocator(x) puts marks at x, FixedFormatter(l) labels them in turn'],
          max_paths=12000)
def plot_profile(E, load):
    """an arbitrary trace among any others: drawn once at its position, times relative to its onset, amplitudes divided by
    the largest absolute amplitude of the profile times scale and shortest box; depth marks at the delays of these depths;
    one histogram bar per box; nothing is modified"""
    library(E)
    mod = load('rf.imaging')
    rs = load('rf.rfstream')
    plt = mod.plt = Plt()
    kw = {}
    case = E.choose(6)
    colors = ('C3', 'C0')
    scale = 1
    if case == 1:
        scale = kw['scale'] = E.real('scale')
    elif case == 2:
        colors = kw['fillcolors'] = ((None, 'b'), ('r', None), (None, None))[E.choose(3)]
    elif case == 3:
        kw['top'] = 'hist'
    elif case == 4:
        kw['top'] = 'other'
    elif case == 5:
        kw['fname'] = 'file'
    model = (('iasp91', None, 'other')[E.choose(3)] if case in (0, 3) else None)
    if model != 'iasp91':
        kw['moveout_model'] = model
    trim = E.choose(2)
    heads = ('onset', 'box_pos', 'box_length', 'slowness', 'moveout')

    def make(base):
        t = trace(E, rs.RFTrace, base, npts=E.int(base + '.npts', 1), present=heads, unknown=())
        t.stats._put('num', E.int(base + '.num', 1))
        t.stats._put('endtime', SUTC(E.real(base + '.end')))
        E.assume(t.stats['box_length'] > 0)
        return t
    pool = Pool(E, make, ('more',))
    shown = given = stream(rs.RFStream, [pool.A, pool.gaps[0]])
    if trim:
        given = stream(rs.RFStream, [traces(E, rs.RFTrace, 'given', present=heads), trace(E, rs.RFTrace, 'G', present=heads)])
        sliced = []

        def slice2(*a, **k):
            sliced.append((a, k))
            return shown
        object.__setattr__(given, 'slice2', slice2)
        lo, hi = E.real('trim0'), E.real('trim1')
        kw['trim'] = (lo, hi)
        E.cover('trim')
    top = pool.top(lambda t: absmax(t.data))
    width = pool.top(lambda t: t.stats['box_length'], 'min')
    E.assume(NOT(veq(top, 0)))
    z, pd = SArr.symbolic('z', E.int('layers', 2)), None
    pd = SArr.symbolic('delays', z.shape[0])
    asked = []

    class Model(object):
        pass
    M = Model()
    M.z = z
    M.calculate_delay_times = lambda *a, **k: asked.append((a, k)) or SArr(pd.shape, pd.at, 'f')
    fake = types.ModuleType('rf.simple_model')
    fake.load_model = lambda *a, **k: asked.append((a, k)) or M
    E.loader.modules['rf.simple_model'] = fake
    last, bars = [], []

    def look(ax, a):
        if last and a and isinstance(a[0], list):
            vals = []
            for b in a[:3]:
                ps = parts_of(b)
                E.prove('order', len(ps) == 2 and getattr(ps[1], 'image_of', None) is pool.gaps[0])
                vals.append((ps[0], pool.value(ps[1], probe)))
            bars.append(vals)
    probe = pool.new('h')
    Axes.hook = staticmethod(look)

    def loop(loc, it, st):
        need(it is shown, 'loop over the traces')
        if 'max_' in loc:
            E.prove('scale', veq(loc['max_'], top))
        ax = plt.figures[-1].axes[0]
        before = {id(x): len(x.calls) for x in plt.figures[-1].axes}
        if E.choose(2) == 0:
            x = pool.new('x')
            pool.bound(top, absmax(x.data), 'max')
            pool.bound(width, x.stats['box_length'], 'min')
            sn = Snap(x)
            yield x
            for a in plt.figures[-1].axes:
                calls = a.calls[before.get(id(a), 0):]
                if a is not ax:
                    E.prove('others', calls == [])
                    continue
                pos = x.stats['box_pos']
                t = SArr(x.data.shape, lambda k: lift(k) * x.stats['delta'] + (x.stats['starttime'] - x.stats['onset']), 'f')
                d = SArr(x.data.shape, lambda k: pos + div(x.data.at(k), top) * scale * width, 'f')
                wiggle(E, 'row', calls, d, t, pos, colors, 'fill_betweenx', flip=True)
            E.prove('data', AND(sn.headers(x.stats), sn.samples(x.data)))
            E.cover('row')
            raise core.PathEnd()
        x = pool.new('last')
        st.values['y'] = SArr(x.data.shape, lambda k: lift(k) * x.stats['delta'] + (x.stats['starttime'] - x.stats['onset']), 'f')
        last.append(x)
        E.cover('behind')
    E.for_specs = {'rf.imaging.plot_profile:0': loop}
    f = getattr(mod.plot_profile, '__wrapped__', mod.plot_profile)
    gs = Snap(given.traces.parts[1]) if trim else None
    try:
        res = f(given, **kw)
    except NotImplementedError:
        E.prove('rejected', kw.get('top') == 'other')
        pool.unchanged()
        E.cover('rejected')
        return
    E.prove('rejected', kw.get('top') != 'other')
    need(len(last) == 1, 'loop over the traces')
    fig = plt.figures[0]
    if kw.get('fname'):
        E.prove('result', res is None and len(fig.saved) == 1 and fig.saved[0][0][0] == 'file' and plt.closed == [fig])
        E.cover('saved')
    else:
        E.prove('result', len(plt.figures) == 1 and res is fig and not fig.saved and not plt.closed)
    if trim:
        E.prove('data', len(sliced) == 1 and sliced[0][1] == {'reftime': 'onset'})
        E.prove('data', AND(veq(sliced[0][0][0], lo), veq(sliced[0][0][1], hi)))
        g = given.traces.parts[1]
        E.prove('data', AND(gs.headers(g.stats), gs.samples(g.data)))
    pool.unchanged()
    ax = fig.axes[0]
    E.prove('others', [c for c in ax.calls if c[0] not in ('xlim', 'ylim')] == [])
    xl = [c for c in ax.calls if c[0] == 'xlim'][-1:]
    E.prove('limits', len(xl) == 1)
    a, b = xl[0][1] if len(xl[0][1]) == 2 else xl[0][1][0]
    for t in (pool.A, probe):
        E.prove('limits', AND(a <= t.stats['box_pos'], b >= t.stats['box_pos']))
    hist = kw.get('top') == 'hist'
    E.prove('axes', len(fig.axes) == 1 + hist)
    if hist:
        E.prove('hist', len(bars) == 1 and [c[0] for c in fig.axes[1].calls if c[0] != 'ylim'] == ['bar'] and
                fig.axes[1].share.get('sharex') is ax)
        c = [c for c in fig.axes[1].calls if c[0] == 'bar'][0]
        E.prove('hist', c[2].get('align') == 'edge')
        for j, t in enumerate((pool.A, probe)):
            left, height, w = [v[j] for v in bars[0]]
            E.prove('hist', AND(veq(left, t.stats['box_pos'] - t.stats['box_length'] / 2), veq(height, t.stats['num']),
                                veq(w, t.stats['box_length'])))
        E.cover('hist')
    if model is None:
        E.prove('depth', asked == [] and not ax.children)
        E.cover('nomodel')
        return
    E.prove('depth', len(asked) == 2 and asked[0] == ((model,), {}) or asked[0] == ((), {'fname': model}))
    a, k = asked[1]
    k = dict(k, **dict(zip(('slowness', 'phase'), a)))
    E.prove('depth', AND(veq(k['phase'], pool.A.stats['moveout']), veq(k['slowness'], pool.A.stats['slowness'])))
    E.prove('depth', len(ax.children) == 1)
    marks = ax.children[0].marks
    deep = pool.A.stats['endtime'] - pool.A.stats['onset'] > 50
    step = 200 if bool(deep) else 50
    E.cover('deep' if step == 200 else 'depth')
    delay = SArr(pd.shape, lambda i: ite(veq(i, 0), 0, pd.at(lift(i) - 1)), 'f')
    E.prove('depth', [m[0] for m in marks] == ['FixedLocator', 'FixedLocator', 'FixedFormatter'])
    d = stubs.np_interp(stubs.as_arr([i * step for i in range(20)]), z, delay)
    labels = list(marks[2][1])
    E.prove('depth', labels == [str(i * step) for i in range(20)])
    q = E.int('mark', 0)
    E.assume(q.t < 20)
    E.prove('depth', veq(marks[0][1].at(q), d.at(q)))


ORDERS = ('01234', '43210', '20413')


@contract('rf.imaging.plot_harmonics', expect=['row', 'fill', 'data', 'others', 'scale', 'result', 'panels', 'select'],
          cover=['one', 'unmod', 'second', 'trim', 'larger', 'row'], assumptions=LIB + [
              'the modelled and unmodelled traces are five each, with channels 0 to 4 in any order (three orders examined); '
              'RFStream.select returns the traces with the given location and channel, in order'])
def plot_harmonics(E, load):
    """every term is drawn once, in the row of its channel, left the modelled and right the unmodelled ones or the modelled
    ones of the second stream; amplitudes divided by the largest absolute amplitude of all traces of the stream (of the
    modelled traces for the second one), times relative to the onset; nothing is modified"""
    library(E)
    mod = load('rf.imaging')
    rs = load('rf.rfstream')
    plt = mod.plt = Plt()
    kw = {}
    colors = (('b', 'r'), ('b', 'r'), (None, 'r'), ('b', None), (None, None))[E.choose(5)]
    if colors != ('b', 'r') or E.choose(2):
        kw['fillcolors'] = colors
    right = E.choose(3)         # nothing, unmodelled, second stream
    plain = 'fillcolors' not in kw
    trim = E.choose(2) if plain else 0
    order = ORDERS[E.choose(3) if plain and not trim else 2]
    E.cover(('one', 'unmod', 'second')[right])
    snaps = []

    def member(base, location, channel):
        t = trace(E, rs.RFTrace, base, npts=E.int(base + '.npts', 1), present=('onset',), unknown=())
        t.stats._put('location', location)
        t.stats._put('channel', channel)
        t.stats._put('components', SStr.word('components'))
        snaps.append((t, Snap(t)))
        return t

    class World(object):
        pass

    def build(name, unmodelled, reverse):
        w = World()
        o = order[::-1] if reverse else order
        w.mod = [member('%s.mod%s' % (name, c), 'mod', c) for c in o]
        w.unmod = [member('%s.unmod%s' % (name, c), 'unmod', c) for c in o] if unmodelled else []
        w.top = E.real(name + '.top')
        E.assume(NOT(veq(w.top, 0)))
        w.stream = stream(rs.RFStream, w.mod + w.unmod)
        w.loops = []

        def select(channel=None, location=None, **k):
            need(not k and location in ('mod', 'unmod', None), 'select by location and channel')
            ts = [t for t in w.mod + w.unmod if location in (None, t.stats['location'])]
            if channel is not None:
                E.prove('select', channel == '0')
                ts = [t for t in ts if t.stats['channel'] == channel]
            s = stream(rs.RFStream, ts)
            if channel is None:
                w.loops.append((s, location))
            return s
        object.__setattr__(w.stream, 'select', select)
        return w
    # whatever the second panel does not show may or may not be in the streams
    one = build('hd', right == 1 or right == 2 and E.choose(2) == 1, False)
    two = build('hd2', E.choose(2) == 1, True) if right == 2 else None
    for w in (one, two):
        if w is not None and trim:
            given = stream(rs.RFStream, [trace(E, rs.RFTrace, 'given')])
            w.sliced = []

            def slice2(*a, **k):
                w0.sliced.append((a, k))
                return w0.stream
            w0 = w
            slice2 = types.FunctionType(slice2.__code__, slice2.__globals__, 'slice2', None,
                                        tuple(types.CellType(w) if n == 'w0' else c for n, c in
                                              zip(slice2.__code__.co_freevars, slice2.__closure__)))
            object.__setattr__(given, 'slice2', slice2)
            w.given = given
        elif w is not None:
            w.given = w.stream
    if trim:
        kw['trim'] = (E.real('trim0'), E.real('trim1'))
        E.cover('trim')
    loops = []

    def loop(var):
        def run(loc, it, st):
            loops.append(var)
            if var == 'ref0':
                need(it is one.stream, 'loop over the first stream')
                ms = one.mod + one.unmod
            else:
                need(any(it is s for s, place in two.loops), 'loop over traces of the second stream')
                E.prove('scale', any(it is s and place == 'mod' for s, place in two.loops))
                ms = two.mod
            start = loc[var]
            E.prove('scale', OR(*[veq(start, absmax(t.data)) for t in ms]))
            ref = E.real('ref')
            top = tops[var]
            st.values[var] = ref
            if plain and not trim and E.choose(2) == 0:
                E.assume(ref >= start)
                t = trace(E, rs.RFTrace, 'any', npts=E.int('any.npts', 1))
                yield t
                now = local('plot_harmonics')[var]
                d = absmax(t.data)
                E.prove('scale', AND(now >= ref, now >= d, OR(veq(now, ref), veq(now, d))))
                E.cover('larger')
                raise core.PathEnd()
            # the value starts with one of the amplitudes and every iteration takes the larger one: the largest of them
            st.values[var] = top
        return run
    tops = {}
    for var, w in (('ref0', one), ('ref1', two)):
        if w is not None:
            tops[var] = w.top
    E.for_specs = {'rf.imaging.plot_harmonics:0': loop('ref0'), 'rf.imaging.plot_harmonics:1': loop('ref1')}
    if two is not None:
        kw['hd2'] = two.given
    f = getattr(mod.plot_harmonics, '__wrapped__', mod.plot_harmonics)
    res = f(one.given, **kw)
    need(loops == ['ref0'] + ['ref1'] * (two is not None), 'loops over the traces')
    E.prove('result', len(plt.figures) == 1 and res is plt.figures[0])
    E.prove('panels', len(plt.figures[0].axes) == 2)
    left, rgt = plt.figures[0].axes
    E.prove('panels', rgt.share.get('sharey') is left and rgt.share.get('sharex') in (None, left))
    shown = [(left, one.mod, one.top), (rgt, one.unmod if two is None else two.mod, one.top if two is None else two.top)]
    for ax, ms, top in shown:
        calls = [c for c in ax.calls if c[0] not in ('xlim', 'ylim')]
        n = 1 + len([c for c in colors if c])
        E.prove('others', len(calls) == n * len(ms))
        if len(calls) != n * len(ms):
            return
        for j, t in enumerate(ms):
            row = 4 - int(t.stats['channel'])
            x = t.times(reftime=t.stats.onset)
            y = SArr(t.data.shape, lambda k: div(t.data.at(k), top) + row, 'f')
            mine = calls[j * n:(j + 1) * n]
            wiggle(E, 'row', mine, x, y, row, colors)
            E.cover('row')
    if trim:
        for w in (one, two):
            if w is not None:
                E.prove('data', len(w.sliced) == 1 and w.sliced[0][1] == {'reftime': 'onset'})
                E.prove('data', AND(*[veq(a, b) for a, b in zip(w.sliced[0][0], kw['trim'])]))
    for t, s in snaps:
        E.prove('data', AND(s.headers(t.stats), s.samples(t.data)))


@contract('rf.imaging.plot_rf', name='empty', expect=['empty'], cover=['empty'], assumptions=[])
def empty(E, load):
    """a stream without traces: nothing is drawn, nothing is returned"""
    library(E)
    mod = load('rf.imaging')
    rs = load('rf.rfstream')
    plt = mod.plt = Plt()
    for f in (mod.plot_rf, mod.plot_profile):
        plain = getattr(f, '__wrapped__', f)
        for kw in ({}, {'fname': 'file'}):
            try:
                plain(stream(rs.RFStream, []), **kw)
                ok = True
            except (IndexError, ValueError, ZeroDivisionError, TypeError):
                ok = False
            E.prove('empty', ok and not any(a.calls for f in plt.figures for a in f.axes))
    E.cover('empty')
