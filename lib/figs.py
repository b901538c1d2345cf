"""Records what matplotlib figures contain at the moment they are saved (and does not render most of them)."""
import os
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt                                      # noqa: E402
from matplotlib.collections import PathCollection, PolyCollection    # noqa: E402
from matplotlib.figure import Figure                                 # noqa: E402

seen, caller = [], []
render = [False]
_save = Figure.savefig


def axes(ax):
    d = dict(lines=[], fills=[], bars=[], points=[], arrows=[], xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel())
    for l in ax.get_lines():
        d["lines"].append(dict(x=np.asarray(l.get_xdata(), float), y=np.asarray(l.get_ydata(), float), label=str(l.get_label()), marker=str(l.get_marker())))
    d["bars"] = [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, "get_width")]
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            d["points"].append(dict(xyz=np.stack([np.ma.filled(np.ma.asarray(v, float), np.nan).ravel() for v in c._offsets3d], 1), label=str(c.get_label())))
        elif hasattr(c, "_segments3d"):
            d["arrows"].append(np.asarray([np.asarray(s, float) for s in c._segments3d]))
        elif isinstance(c, PolyCollection):
            v = np.vstack([p.vertices for p in c.get_paths()]) if c.get_paths() else np.empty((0, 2))
            d["fills"].append(dict(v=v, label=str(c.get_label())))
        elif isinstance(c, PathCollection):
            d["points"].append(dict(xy=np.asarray(c.get_offsets(), float), label=str(c.get_label())))
    for k in ("xscale", "yscale"):
        d[k] = getattr(ax, "get_" + k)()
    return d


def savefig(self, fname, *a, **k):
    seen.append(dict(name=os.path.basename(str(fname)), dir=os.path.dirname(str(fname)), axes=[axes(x) for x in self.axes]))
    if render[0] or not isinstance(fname, str):
        return _save(self, fname, *a, **k)
    with open(fname, "wb") as f:        # fails as the real one does where there is no such directory
        f.write(b"%PDF stub")


Figure.savefig = savefig


def collect(fn, really=False):
    """Runs fn; returns the figures that it saved, by file name (the last one of a name). Complaints about the figure
    that the caller has open meanwhile go to `caller`."""
    del seen[:], caller[:]
    plt.close("all")
    own = plt.figure()
    plt.plot([0, 1], [2, 3])
    before, font = axes(own.axes[0]), dict(matplotlib.rcParams)
    render[0] = really
    try:
        fn()
        if plt.get_fignums() != [own.number]:
            caller.append("open figures %s" % plt.get_fignums())
        elif plt.gcf() is not own:
            caller.append("another current figure")
        if len(own.axes) != 1 or repr(axes(own.axes[0])) != repr(before) or own.axes[0].get_legend() is not None or own.texts:
            caller.append("it was drawn on")
        if dict(matplotlib.rcParams) != font:
            caller.append("settings changed")
    finally:
        plt.close("all")
        render[0] = False
    return {f["name"]: f for f in seen}


def band(fill, x):
    """Lowest and highest drawn value at each x."""
    lo, hi = np.full(len(x), np.nan), np.full(len(x), np.nan)
    for i, v in enumerate(x):
        at = fill["v"][fill["v"][:, 0] == v, 1]
        if len(at):
            lo[i], hi[i] = at.min(), at.max()
    return lo, hi
