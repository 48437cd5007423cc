"""matplotlib without rasterising: saving a figure records what it contains."""
import builtins
import contextlib

import matplotlib
import matplotlib.figure
import numpy as np

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402


def lines(figure):
    """[[(label, x, y) of every line] of every axes]."""
    return [[(line.get_label(), np.array(line.get_xdata(), float), np.array(line.get_ydata(), float))
             for line in ax.get_lines()] for ax in figure.axes]


def areas(figure):
    """[[the corners of every area filled] of every axes]."""
    return [[np.array(path.vertices, float) for c in ax.collections for path in c.get_paths()]
            for ax in figure.axes]


def hidden(figure):
    """The labels of the lines which are partly outside of their axes."""
    found = []
    for ax in figure.axes:
        low, high = sorted(map(float, ax.get_ylim()))
        gap = 1e-6 * (high - low)
        for line in ax.get_lines():
            y = np.array(line.get_ydata(), float)
            y = y[np.isfinite(y) & (np.abs(y) < 1e100)]
            if len(y) and line.get_visible() and (y.min() < low - gap or y.max() > high + gap):
                found.append(f"{line.get_label()} (values {float(y.min()):.6g} to {float(y.max()):.6g}"
                             f", axis {low:.6g} to {high:.6g})")
    return found


class Gallery:
    """The pictures saved and the figures shown, in order."""

    def __init__(self):
        self.saved, self.shown, self.titles = [], [], []
        self.areas = []  # the areas filled in the pictures saved
        self.hidden = []  # lines which are partly invisible in a figure saved or shown

    @contextlib.contextmanager
    def installed(self):
        cls = matplotlib.figure.Figure
        real_save, real_show = cls.savefig, plt.show

        def savefig(figure, fname, *args, **kwargs):
            content = lines(figure)
            with builtins.open(fname, "wb") as f:
                f.write(b"\x89PNG" + repr([[l[0] for l in ax] for ax in content]).encode())
            self.saved.append((str(fname), content))
            self.areas.append(areas(figure))
            self.hidden += [f"{fname}: {label}" for label in hidden(figure)]
            suptitle = getattr(figure, "_suptitle", None)
            self.titles.append(" ".join([suptitle.get_text() if suptitle else "",
                                         *(ax.get_title() for ax in figure.axes)]))

        def show(*args, **kwargs):
            """The user looks at the figures and closes them."""
            self.shown.append([lines(plt.figure(n)) for n in plt.get_fignums()])
            self.hidden += [f"window {n}: {label}" for n in plt.get_fignums()
                            for label in hidden(plt.figure(n))]
            plt.close("all")

        cls.savefig, plt.show = savefig, show
        try:
            yield self
        finally:
            cls.savefig, plt.show = real_save, real_show
