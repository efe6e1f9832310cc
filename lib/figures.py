"""Record what a script draws: the state of the artists of every figure when it is saved."""
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
import matplotlib.axes
import matplotlib.animation

_set = matplotlib.RcParams.__setitem__
matplotlib.RcParams.__setitem__ = lambda self, k, v: None if k.startswith('text.') and k != 'text.color' else _set(self, k, v)
_contour = matplotlib.axes.Axes.contour


def contour(self, *a, **kw):
    r = _contour(self, *a, **kw)
    self.__dict__.setdefault('_verif_contours', []).append(
        dict(args=[np.array(x) for x in a], levels=np.array(r.levels), dashed=kw.get('linestyles') == 'dashed'))
    return r


matplotlib.axes.Axes.contour = contour


RECORD = []


def snapshot(fig, name):
    axes = []
    for ax in fig.axes:
        bands = []
        for c in ax.collections:
            if type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection'):
                bands.append(np.concatenate([p.vertices for p in c.get_paths()]))
        axes.append(dict(title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), bands=bands,
                         lines=[dict(label=str(l.get_label()), x=np.array(l.get_xdata()), y=np.array(l.get_ydata()),
                                     marker=str(l.get_marker()), style=str(l.get_linestyle())) for l in ax.lines],
                         images=[np.array(i.get_array()) for i in ax.images],
                         contours=ax.__dict__.get('_verif_contours', [])))
    RECORD.append(dict(name=str(name), axes=axes))


matplotlib.figure.Figure.savefig = lambda self, name, *a, **kw: snapshot(self, name)
matplotlib.figure.Figure.tight_layout = lambda self, *a, **kw: None
plt.show = lambda *a, **kw: None


def save(self, name, *a, **kw):
    """an animation: its figure at every frame"""
    for frame in self.new_frame_seq():
        self._func(frame)
        snapshot(self._fig, f'{name}#{frame}')


matplotlib.animation.FuncAnimation.save = save
