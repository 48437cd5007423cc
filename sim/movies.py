"""Animations without rendering and without ffmpeg: every frame is recorded."""
import builtins
import contextlib
import re
import weakref

import numpy as np
from matplotlib import animation
from matplotlib.backends.backend_agg import FigureCanvasAgg

from .figures import Gallery, hidden, lines, plt


def texts(figure):
    found = [t.get_text() for ax in figure.axes for t in [*ax.texts, ax.title]]
    suptitle = getattr(figure, "_suptitle", None)
    return found + ([suptitle.get_text()] if suptitle else [])


def numbers(text):
    return [float(n) for n in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", text)]


class Film:
    def __init__(self, name, rate):
        self.name, self.rate = name, rate
        self.frames = []  # (lines, texts)
        self.hidden = []  # (frame, lines which are partly invisible in it)
        self.finished = False


class _Writer(animation.AbstractMovieWriter):
    """In the place of ffmpeg."""
    studio = None

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi)
        self.film = Film(str(outfile), self.fps)
        self.studio.films.append(self.film)
        self.studio.fail("setup")
        self.file = builtins.open(outfile, "wb")

    def grab_frame(self, **kwargs):
        self.studio.fail("frame")
        content = lines(self.fig)
        self.file.write(b"frame" * 30)
        self.file.flush()
        self.film.hidden += [(len(self.film.frames), label) for label in hidden(self.fig)]
        self.film.frames.append((content, texts(self.fig)))

    def finish(self):
        self.file.close()
        self.studio.fail("finish")
        self.film.finished = True


class _Projector(_Writer):
    """What a user sees who looks at an animation until it starts again."""

    def setup(self, fig, outfile, dpi=None):
        animation.AbstractMovieWriter.setup(self, fig, outfile, dpi)
        self.film = Film(None, self.fps)

    def grab_frame(self, **kwargs):
        self.film.hidden += [(len(self.film.frames), label) for label in hidden(self.fig)]
        self.film.frames.append((lines(self.fig), texts(self.fig)))

    def finish(self):
        self.film.finished = True


class Studio(Gallery):
    """FAULT: {"at": number of the call of the writer, "error": exception}."""

    def __init__(self):
        super().__init__()
        self.films, self.watched = [], []
        self.expect(None, None)

    def expect(self, at, error):
        self.at, self.error, self.calls, self.fired = at, error, 0, []

    def fail(self, where):
        if self.at == self.calls:
            self.fired.append(where)
            self.calls += 1
            raise self.error
        self.calls += 1

    @contextlib.contextmanager
    def installed(self):
        animations = []
        real_init = animation.Animation.__init__
        real_draw, real_register = FigureCanvasAgg.draw, animation.writers._registered.get("ffmpeg")

        def __init__(this, fig, *args, **kwargs):
            animations.append((weakref.ref(this), fig))
            real_init(this, fig, *args, **kwargs)

        class Writer(_Writer):
            studio = self

        with super().installed():
            still = plt.show

            def show(*args, **kwargs):
                for number in plt.get_fignums():
                    figure = plt.figure(number)
                    for ref, owner in animations:
                        if owner is figure and ref() is not None:
                            interval = getattr(ref().event_source, "interval", None)
                            projector = _Projector(fps=1000 / max(interval or 1, 1))
                            ref().save("window", writer=projector)
                            self.watched.append(projector.film)
                still(*args, **kwargs)

            plt.show = show
            animation.Animation.__init__ = __init__
            animation.writers._registered["ffmpeg"] = Writer
            FigureCanvasAgg.draw = lambda canvas, *args, **kwargs: None
            try:
                yield self
            finally:
                animation.Animation.__init__ = real_init
                FigureCanvasAgg.draw = real_draw
                if real_register is None:
                    del animation.writers._registered["ffmpeg"]
                else:
                    animation.writers._registered["ffmpeg"] = real_register
