'''light stand-ins for the drawing library (symbolic world only; the real world draws with matplotlib off screen)'''

import os


class Noop:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Noop()

    def __call__(self, *a, **k):
        return Noop()


class Path:
    MOVETO, LINETO, CLOSEPOLY = 1, 2, 79

    def __init__(self, verts, codes=None):
        self.vertices, self.codes = list(verts), codes
        assert codes is None or len(codes) == len(self.vertices), "'codes' must be a 1D list or array with the same length of 'vertices'"


class Collection(Noop):
    def __init__(self, *a, **k):
        self.paths = []

    def get_paths(self):
        return self.paths


class Line2D(Noop):
    def __init__(self, x, y, **k):
        self.x, self.y = list(x), list(y)

    def get_xdata(self):
        return self.x

    def get_ydata(self):
        return self.y

    def set_xdata(self, v):
        self.x = list(v)

    def set_ydata(self, v):
        self.y = list(v)


class Collections:
    PolyCollection = LineCollection = Collection


class Plt(Noop):
    @staticmethod
    def subplots(nrows=1, ncols=1, **k):
        return Noop(), [[Noop() for _ in range(ncols)] for _ in range(nrows)]


def prepare(w, image=None):
    'use the stand-ins in the symbolic world; never write an image'
    pu = w.mod('plotutil')
    ss = w.mod('stateset')
    if w.is_sym:
        pu.plt, pu.collections, pu.Line2D, pu.Path, ss.Path, ss.Line2D = Plt(), Collections, Line2D, Path, Path, Line2D
    else:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        pu.plt.switch_backend('Agg')
    pu.PlotManager.save_image = lambda self: None
    return pu


def settings(w, s, dims=((0, 1),)):
    'image mode with fixed axes for the given pairs of plotted dimensions'
    st = w.mod('settings')
    s.plot.plot_mode = st.PlotSettings.PLOT_IMAGE
    s.plot.xdim_dir = [d[0] for d in dims]
    s.plot.ydim_dir = [d[1] for d in dims]
    s.plot.label = [st.LabelSettings() for _ in dims]
    for la in s.plot.label:
        la.axes_limits = (-10, 10, -10, 10)
