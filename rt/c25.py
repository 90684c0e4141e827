"""C25: plots show the data to scale and never modify it."""
import contextlib
import os
import numpy as np
from rt.base import *


@contextlib.contextmanager
def figures():
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        yield plt
    finally:
        plt.close('all')


def curves(axes, minlen=2):
    out = []
    for ax in axes:
        for l in ax.get_lines():
            x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
            if len(x) >= minlen and l.get_linestyle() not in ('None', '', ' '):
                out.append((ax, x, y))
    return out


def take(lines, x, y, what, tol=1e-9):
    """exactly one line shows (x, y)"""
    hit = [k for k, (ax, a, b) in enumerate(lines) if len(a) == len(x) and np.allclose(a, x, rtol=1e-9, atol=1e-6) and
           np.allclose(b, y, rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(y))))]
    need(len(hit) >= 1, '%s is not drawn at its position and scale', what)
    return lines.pop(hit[0])[0]


def shades(ax):
    from matplotlib.collections import PolyCollection
    return [c for c in ax.collections if isinstance(c, PolyCollection)]


def rgba(c):
    from matplotlib.colors import to_rgba
    return to_rgba(c)


def check_fill(axes, colors, rows, vertical=False):
    """positive fills on one side of the base line, negative on the other, in the requested colour"""
    got = [c for ax in axes for c in shades(ax)]
    n = 0
    for color, sign in zip(colors, (1, -1)):
        if not color:
            continue
        mine = [c for c in got if len(c.get_facecolor()) and np.allclose(c.get_facecolor()[0], rgba(color))]
        n += len(mine)
        need(len(mine) == len(rows), '%d fills of color %s instead of %d', len(mine), color, len(rows))
        for base, d in rows:
            ok = False
            for c in mine:
                v = [p.vertices[:, 0 if vertical else 1] for p in c.get_paths()]
                v = np.hstack(v) if v else np.array([])
                amp = np.max(sign * (d - 0)) if len(d) else 0
                if len(v) == 0 and amp <= 0:
                    ok = True
                elif len(v) and (sign * (v - base) >= -1e-9).all() and abs(np.max(sign * (v - base)) - max(amp, 0)) < 1e-6 * (1 + abs(amp)):
                    ok = True
            need(ok, 'fill of color %s at %s does not show the amplitudes of this sign', color, base)
    need(len(got) == n, '%d fills instead of %d', len(got), n)


def rfs(rng, same=None, note=None, comps=None, varlen=False):
    """receiver function like stream"""
    from rf import RFStream
    n = int(rng.randint(20, 60))
    out = []
    N = int(rng.randint(1, 7))
    for k in range(N):
        nk = n + (int(rng.randint(0, 5)) if varlen else 0)
        tr = group(rng, comps or 'Q', n=nk, sr=4., sta='AAA', onset_at=(4 if not varlen else rng.randint(0, 30)) / 4., type='rf')[0]
        tr.stats.onset = tr.stats.starttime + pick(rng, [0., 1., 2.25, 3.])
        tr.data = rng.randn(nk) * pick(rng, [.1, 1, 10])
        if rng.rand() < .15:
            tr.data = np.abs(tr.data) + .1
        out.append(tr)
    return RFStream(out)


@case(24, 400)
def rf(rng, note):
    """plot_rf: every trace at its row, scaled by the common or own maximum, times relative to the onset, header values, stack"""
    with figures() as plt, quiet(), scratch():
        same = rng.rand() < .6
        s = rfs(rng, varlen=rng.rand() < .4)
        if not same and len(s) > 1:
            s[0].stats.channel = 'BHT'
        kw = {}
        if rng.rand() < .4:
            kw['trace_scale'] = bool(rng.randint(2))
        if rng.rand() < .4:
            kw['scale_factor'] = pick(rng, [.5, 2., 1.])
        if rng.rand() < .5:
            kw['fillcolors'] = pick(rng, [('black', 'gray'), ('C0', None), (None, 'C3'), (None, None)])
        if rng.rand() < .4:
            kw['info'] = pick(rng, [None, (('slowness', 'slow', 'C2'),), (('back_azimuth', 'baz', 'C0'), ('slowness', 'p', 'C1'))])
        if rng.rand() < .35:
            kw['show_traces'] = False
        if rng.rand() < .3:
            kw['show_vlines'] = True
        trim = None
        if rng.rand() < .4:
            trim = kw['trim'] = (pick(rng, [-1., 0, -10]), pick(rng, [2., 3., 50]))
        for k, v in (('fig_width', 5.), ('trace_height', .3), ('stack_height', .8), ('dpi', 50)):
            if rng.rand() < .2:
                kw[k] = v
        save = rng.rand() < .15
        note.update(n=len(s), kw=repr(kw), save=save, data=float(s[0].data[0]))
        shown = s.slice2(*trim, reftime='onset') if trim else s.copy()
        if not len(shown):
            raise Skip()
        keep = [snap(t) for t in s]
        ids = [id(t) for t in s]
        fig = s.plot_rf('x.png' if save else None, **kw) if rng.rand() < .5 else __import__('rf.imaging', fromlist=['x']).plot_rf(s, 'x.png' if save else None, **kw)
        need([id(t) for t in s] == ids, 'stream changed')
        for t, k in zip(s, keep):
            same_snap(k, snap(t), 'plotted trace')
        if save:
            need(os.path.getsize('x.png') > 0 and fig is None, 'file not written')
            need(not plt.get_fignums(), 'figure left open')
            return
        lines = curves(fig.axes)
        gmax = max(np.max(np.abs(t.data)) for t in shown)
        rows = []
        axes = set()
        show = kw.get('show_traces', True)
        sf = kw.get('scale_factor', 1)
        if show:
            for i, t in enumerate(shown):
                m = np.max(np.abs(t.data)) if kw.get('trace_scale') else gmax
                x = np.arange(len(t)) / t.stats.sampling_rate - (t.stats.onset - t.stats.starttime)
                d = t.data / m * sf
                axes.add(take(lines, x, d + i + 1, 'trace %d' % i))
                rows.append((i + 1, d))
            need(len(axes) == 1, 'traces in several axes')
            (ax1,) = axes
            check_fill([ax1], kw.get('fillcolors', (None, None)), rows)
            xl = ax1.get_xlim()
            lo = min(0, min(-(t.stats.onset - t.stats.starttime) for t in shown))
            hi = max(0, max(t.stats.endtime - t.stats.onset for t in shown))
            need(abs(xl[0] - lo) < 1e-6 and abs(xl[1] - hi) < 1e-6, 'time axis %s instead of %s', xl, (lo, hi))
            yl = ax1.get_ylim()
            need(yl[0] < 1 and yl[1] > len(shown), 'rows outside of the axes')
        # stack
        nids = len({t.id for t in shown})
        stackable = nids == 1 and len({len(t) for t in shown}) == 1
        if stackable:
            t = shown[-1]
            st = np.mean([u.data for u in shown], axis=0)
            x = np.arange(len(t)) / t.stats.sampling_rate - (t.stats.onset - t.stats.starttime)
            if len({(u.stats.onset - u.stats.starttime) for u in shown}) == 1:
                axs = take(lines, x, st, 'stack')
                check_fill([axs], kw.get('fillcolors', (None, None)), [(0, st)])
                need(axs not in axes, 'stack in the axes of the traces')
                need(np.allclose(axs.get_xlim(), ax1.get_xlim() if show else
                     (min(0, x[0]), max(0, x[-1]))), 'time axis of the stack %s', axs.get_xlim())
            else:
                lines = [l for l in lines if not np.allclose(l[2], st) or len(l[2]) != len(st)] if False else \
                    [l for l in lines if len(l[2]) != len(st) or not np.allclose(l[2], st)]
        need(not lines, '%d more lines than traces', len(lines))
        # header values
        info = kw.get('info', (('back_azimuth', u'baz (°)', 'C0'), ('distance', u'dist (°)', 'C3')))
        dots = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l) for ax in fig.axes for l in ax.get_lines()
                if l.get_linestyle() in ('None', '', ' ')]
        if not show or not info:
            need(not dots, 'header values drawn')
        else:
            need(len(dots) == len(info), '%d header axes instead of %d', len(dots), len(info))
            for key, label, color in info:
                v = [t.stats[key] for t in shown]
                need(any(close(a, v) and close(b, 1 + np.arange(len(v))) and np.allclose(rgba(l.get_color()), rgba(color)) and
                         l.axes.get_xlabel() == label for a, b, l in dots), 'header values %s', key)


@case(24, 400)
def profile(rng, note):
    """plot_profile: every trace at its box position, depth axis, histogram"""
    from rf import RFStream
    from rf.imaging import plot_profile
    with figures() as plt, quiet(), scratch():
        n = int(rng.randint(20, 50))
        N = int(rng.randint(1, 6))
        L = rng.uniform(3, 20, N) if rng.rand() < .5 else np.ones(N) * 10.
        pos = np.cumsum(L) - L / 2 + pick(rng, [0, -30])
        traces = []
        for k in range(N):
            t = group(rng, 'Q', n=n, sr=4., onset_at=2., type='profile')[0]
            t.stats.update({'box_pos': float(pos[k]), 'box_length': float(L[k]), 'num': int(rng.randint(1, 30)), 'moveout': 'Ps', 'slowness': 6.4})
            t.data = rng.randn(n) * pick(rng, [.1, 1, 5])
            traces.append(t)
        s = RFStream(traces)
        kw = {}
        if rng.rand() < .4:
            kw['scale'] = pick(rng, [.5, 2, 1])
        if rng.rand() < .4:
            kw['fillcolors'] = pick(rng, [('black', 'gray'), (None, 'C3'), ('C1', None), (None, None)])
        if rng.rand() < .4:
            kw['trim'] = (pick(rng, [-1, 0]), pick(rng, [2., 3.5]))
        if rng.rand() < .5:
            kw['top'] = 'hist'
        if rng.rand() < .3:
            kw['moveout_model'] = None
        note.update(n=N, kw=repr(kw), pos=repr(pos), data=float(s[0].data[0]))
        keep = [snap(t) for t in s]
        shown = s.slice2(*kw['trim'], reftime='onset') if 'trim' in kw else s
        fig = pick(rng, [lambda: plot_profile(s, **kw), lambda: s.plot_profile(**kw)])()
        for t, k in zip(s, keep):
            same_snap(k, snap(t), 'plotted trace')
        lines = curves(fig.axes)
        gmax = max(np.max(np.abs(t.data)) for t in shown)
        axes, rows = set(), []
        sc = kw.get('scale', 1)
        for i, t in enumerate(shown):
            y = np.arange(len(t)) / 4. - (t.stats.onset - t.stats.starttime)
            d = sc * t.data / gmax * min(L)
            axes.add(take(lines, t.stats.box_pos + d, y, 'trace %d' % i))
            rows.append((t.stats.box_pos, d))
        need(len(axes) == 1 and not lines, '%d more lines than traces', len(lines))
        (ax,) = axes
        check_fill([ax], kw.get('fillcolors', ('C3', 'C0')), rows, vertical=True)
        xl = ax.get_xlim()
        pad = max(1, sc) * min(L)
        need(np.allclose(xl, (min(pos) - pad, max(pos) + pad)), 'x axis %s', xl)
        yl = ax.get_ylim()
        need(np.allclose(yl, (y[-1], y[0])), 'time axis %s instead of %s', yl, (y[-1], y[0]))
        if kw.get('top') == 'hist':
            bars = [p for a in fig.axes for p in a.patches if a is not ax]
            need(len(bars) == N, '%d bars', len(bars))
            for p, t in zip(sorted(bars, key=lambda p: p.get_x()), sorted(shown, key=lambda t: t.stats.box_pos)):
                need(abs(p.get_x() - (t.stats.box_pos - t.stats.box_length / 2)) < 1e-9 and abs(p.get_width() - t.stats.box_length) < 1e-9,
                     'bar from %s width %s for box at %s', p.get_x(), p.get_width(), t.stats.box_pos)
                need(p.get_height() == t.stats.num, 'bar height %s instead of %s', p.get_height(), t.stats.num)
        depth_ax = [a for a in fig.axes if a.get_ylabel() == 'depth (km)']
        need(len(depth_ax) == (0 if kw.get('moveout_model', 1) is None else 1), 'depth axis')
        for a in depth_ax:
            need(np.allclose(a.get_ylim(), yl), 'depth axis limits')
            from rt.c14 import iasp, delays
            z, dz, vp, vs = iasp()
            top = np.hstack([[0.], delays((z, dz, vp, vs), 6.4, 'Ps')[:-1]])
            lab = [l.get_text() for l in a.get_yticklabels()]
            loc = a.yaxis.get_major_locator()()
            for x, d in zip(loc, a.yaxis.get_major_formatter().format_ticks(loc)):
                if d == '' or not np.isfinite(x):
                    continue
                w = np.interp(float(d), z, top)
                need(abs(x - w) < 1e-4 * (1 + abs(w)), 'depth %s at %s s instead of %s s', d, x, w)


@case(14, 200)
def harmonics(rng, note):
    """plot_harmonics: every term at its row with the documented scale"""
    from rf import RFStream
    from rf.imaging import plot_harmonics
    with figures() as plt, quiet(), scratch():
        def hd(two, labels='RT'):
            out = []
            n = 30
            for i in range(10 if two else 5):
                t = group(rng, 'R', n=n, sr=4., onset_at=2., type='harmonic')[0]
                t.data = rng.randn(n) * pick(rng, [.1, 1, 4])
                t.stats.channel, t.stats.location = str(i % 5), 'mod' if i < 5 else 'unmod'
                t.stats.components = labels
                out.append(t)
            return RFStream(out)
        two = bool(rng.randint(2))
        a = hd(two)
        b = hd(bool(rng.randint(2)), 'Q') if rng.rand() < .4 else None
        kw = {}
        if b is not None:
            kw['hd2'] = b
        if rng.rand() < .5:
            kw['fillcolors'] = pick(rng, [('black', 'gray'), (None, 'C3'), (None, None)])
        if rng.rand() < .4:
            kw['trim'] = (-1, 3.)
        note.update(two=two, second=b is not None, kw=repr(sorted(kw)), data=float(a[0].data[0]))
        keep = [snap(t) for t in a] + ([snap(t) for t in b] if b is not None else [])
        fig = plot_harmonics(a, **kw)
        for t, k in zip(list(a) + list(b or []), keep):
            same_snap(k, snap(t), 'plotted trace')
        A = a.slice2(*kw['trim'], reftime='onset') if 'trim' in kw else a
        B = (b.slice2(*kw['trim'], reftime='onset') if 'trim' in kw else b) if b is not None else None
        ref0 = max(np.max(np.abs(t.data)) for t in A)
        left = [(t, ref0) for t in A if t.stats.location == 'mod']
        if B is not None:
            ref1 = max(np.max(np.abs(t.data)) for t in B if t.stats.location == 'mod')
            right = [(t, ref1) for t in B if t.stats.location == 'mod']
        else:
            right = [(t, ref0) for t in A if t.stats.location == 'unmod']
        lines = curves(fig.axes)
        for what, part in (('modeled', left), ('right', right)):
            axes, rows = set(), []
            for t, ref in part:
                x = np.arange(len(t)) / 4. - (t.stats.onset - t.stats.starttime)
                j = 4 - int(t.stats.channel)
                axes.add(take(lines, x, t.data / ref + j, '%s term %s' % (what, t.stats.channel)))
                rows.append((j, t.data / ref))
            need(len(axes) <= 1, 'terms in several axes')
            for ax in axes:
                check_fill([ax], kw.get('fillcolors', ('b', 'r')), rows)
        need(not lines, 'additional lines')


@case(2, 8)
def empty(rng, note):
    """an empty stream is not plotted and raises nothing"""
    from rf import RFStream
    with figures() as plt, quiet(), scratch():
        kw = {} if rng.rand() < .5 else {'fname': 'nothing.png'}
        kind = pick(rng, ['rf', 'profile'])
        note.update(kind=kind, kw=repr(kw))
        import rf.imaging as im
        res = getattr(im, 'plot_' + kind)(RFStream([]), **kw)
        need(res is None or not any(a.lines or a.collections for a in res.axes), 'something drawn for an empty stream')


@case(6, 60)
def maps(rng, note):
    """maps show every station and piercing point at its coordinates"""
    from rf import RFStream
    from rf.imaging import plot_stations, plot_ppoints, plot_profile_map
    from rf.profile import get_profile_boxes
    with figures() as plt, quiet(), scratch():
        kind = pick(rng, ['stations', 'ppoints', 'profile'])
        note['kind'] = kind
        s = RFStream()
        for k in range(1 + rng.randint(4)):
            g = group(rng, 'LQ', n=5, sta='S%d' % k)
            ll = (float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3)))
            for t in g:
                t.stats.station_latitude, t.stats.station_longitude = ll
            s.traces += g
        keep = [snap(t) for t in s]
        pp = rng.uniform(-3, 3, (int(rng.randint(1, 6)), 2))
        note.update(n=len(s), pp=repr(pp[0]))
        if kind == 'stations':
            ax = plot_stations(s)
        elif kind == 'ppoints':
            ax = plot_ppoints(pp, inventory=s)
        else:
            boxes = get_profile_boxes((0., 0.), 90., (0, 20, 40), width=50)
            ax = plot_profile_map(boxes, inventory=s, ppoints=pp)
        for t, k in zip(s, keep):
            same_snap(k, snap(t), 'plotted trace')
        off = [np.asarray(c.get_offsets(), float) for c in ax.collections if len(np.asarray(c.get_offsets()).shape) == 2 and
               type(c).__name__ == 'PathCollection']
        want = sorted({(t.stats.station_longitude, t.stats.station_latitude) for t in s})
        need(any(o.shape == (len(want), 2) and np.allclose(sorted(map(tuple, o)), want) for o in off), 'stations are not drawn at their coordinates')
        if kind != 'stations':
            w = sorted((b, a) for a, b in pp)
            need(any(o.shape == (len(w), 2) and np.allclose(sorted(map(tuple, o)), w) for o in off), 'piercing points are not drawn at their coordinates')
        names = {t.get_text() for t in ax.texts}
        need(names >= {t.stats.station for t in s}, 'station names %s', names)
