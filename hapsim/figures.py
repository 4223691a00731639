"""What figures show. The animation of a result file runs for real up to the
movie writer, which is replaced by one that keeps what each frame holds."""
import hashlib
import os

import numpy as np

from . import engine

KINDS = ('map', 'transect', 'long')


def seen(fig):
    """everything a figure shows, as plain data"""
    fig.canvas.draw()
    return shown(fig)


def shown(fig):
    from matplotlib.lines import Line2D
    from matplotlib.patches import Polygon
    out = dict(sup=fig._suptitle.get_text() if fig._suptitle is not None else '', axes=[])
    for a in fig.axes:
        d = dict(lines=[], polys=[], left=a.get_title('left'), right=a.get_title('right'), mid=a.get_title('center'), ylabel=a.get_ylabel(),
                 xlim=tuple(map(float, a.get_xlim())), ylim=tuple(map(float, a.get_ylim())))
        for c in a.get_children():
            if isinstance(c, Line2D):
                x, y = c.get_data(orig=False)
                d['lines'].append((str(c.get_label()), np.array(x, float), np.array(y, float), c.get_linestyle() not in ('None', '', ' ') and c.get_visible()))
            elif isinstance(c, Polygon):
                d['polys'].append((str(c.get_label()), np.array(c.get_xy(), float)))
        out['axes'].append(d)
    return out


def tap(run):
    """keep what live plots show: run.plots = [[figure number, solver calls so far, contents]]"""
    from matplotlib.backends import backend_agg
    real = backend_agg.FigureCanvasAgg.draw
    run.plots = []

    def draw(self, *a, **k):
        r = real(self, *a, **k)
        n = getattr(self.figure, 'number', None)
        e = [n, run.solves, shown(self.figure)]
        for o in run.plots[::-1]:
            if o[1] != run.solves:
                break
            if o[0] == n:
                o[2] = e[2]
                return r
        run.plots.append(e)
        return r
    backend_agg.FigureCanvasAgg.draw = draw


class Fault(OSError):
    pass


def movie(path, wd, first=0, last=None, step=1, kind='map', x=None, aoi=None, fail_at=None, cpu=120):
    """Run hapuamod.animate.main on a result file; returns
    dict(status, frames, fps, err)"""
    def go():
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib import animation
        from hapuamod import animate
        got = []

        @animation.writers.register('hapsim')
        class Writer(animation.AbstractMovieWriter):
            @classmethod
            def isAvailable(cls):
                return True

            def setup(self, fig, outfile, dpi=None, *a, **k):
                self.fig, self.outfile = fig, outfile
                self._f = open(outfile, 'wb')

            def grab_frame(self, **k):
                if fail_at is not None and len(got) >= fail_at:
                    raise Fault(28, 'No space left on device')
                got.append(seen(self.fig))
                self._f.write(b'frame\n')

            def finish(self):
                self._f.close()
        matplotlib.rcParams['animation.writer'] = 'hapsim'
        a = dict(StartTimestep=first, EndTimestep=last, ResampleInt=step, AreaOfInterest=aoi)
        if kind == 'transect':
            a['TransectX'] = x
        elif kind == 'long':
            a['Longsection'] = True
        try:
            animate.main(path, os.path.join(wd, 'movie.mp4'), **a)
        except Exception as e:
            return dict(status='raise', exc=type(e).__name__, err='%s: %s' % (type(e).__name__, e), where=engine.where(e), frames=got)
        return dict(status='ok', frames=got)
    return engine.in_child(go, wd, cpu=cpu)


def hashed(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()
