"""Summary of the matplotlib objects the plots draw into: an axis keeps lines, limits and labels."""

AXIS = '''
class Text:
    def __init__(self, text):
        self._text = text
    def get_text(self):
        return self._text


class Legend:
    def __init__(self, labels):
        self.texts = [Text(l) for l in labels]
    def get_texts(self):
        return self.texts


class Line:
    """Draws nothing, keeps a copy of its data. x and y have to have the same length (matplotlib raises ValueError otherwise)."""
    def __init__(self, x, y, style):
        if len(x) != len(y):
            raise ValueError("x and y must have same first dimension")
        self.x = list(x)
        self.y = list(y)
        self.style = style
        self.label = ""
    def set_data(self, x, y):
        self.x = list(x)
        self.y = list(y)
    def set_xdata(self, x):
        self.x = list(x)
    def set_ydata(self, y):
        self.y = list(y)
    def get_xdata(self):
        return self.x
    def get_ydata(self):
        return self.y


class Axis:
    def __init__(self):
        self.lines = []
        self.plots = []
        self.vlines = []
        self.hlines = []
        self.x_lim = (0.0, 1.0)
        self.y_lim = (0.0, 1.0)
        self.y_label = None
        self.x_label = None
        self.the_legend = None
        self.labels = []
    def plot(self, x, y, **style):
        line = Line(x, y, style)
        self.lines.append(line)
        self.plots.append(line)
        return [line]
    def axhline(self, y=0, *args, **style):
        line = Line([0, 1], [y, y], style)
        self.lines.append(line)
        self.hlines.append(y)
        return line
    def axvline(self, x=0, *args, **style):
        line = Line([x, x], [0, 1], style)
        self.lines.append(line)
        self.vlines.append((x, style.get("color")))
        return line
    def legend(self, handles=(), labels=(), **kwargs):
        self.handles = list(handles)
        self.labels = list(labels)
        self.the_legend = Legend(labels)
        return self.the_legend
    def get_legend(self):
        return self.the_legend
    def grid(self, *args, **kwargs):
        pass
    def autoscale(self, *args, **kwargs):
        pass
    def set_ylabel(self, label, *args, **kwargs):
        self.y_label = label
    def set_xlabel(self, label, *args, **kwargs):
        self.x_label = label
    def set_xlim(self, left=None, right=None):
        self.x_lim = tuple(left) if right is None else (left, right)
    def set_ylim(self, bottom=None, top=None):
        self.y_lim = tuple(bottom) if top is None else (bottom, top)
    def get_xlim(self):
        return self.x_lim
    def get_ylim(self):
        return self.y_lim
'''


def load(it):
    return it.load_text("gemspec.axis", AXIS).ns


FIGURE = '''
class Canvas:
    def __init__(self):
        self.manager = self
    def set_window_title(self, *args):
        pass
    def draw(self):
        DRAWN("draw")
    def flush_events(self):
        pass


class Figure:
    def __init__(self, axes):
        self.axes = axes
        self.canvas = Canvas()
    def subplots_adjust(self, *args, **kwargs):
        pass
    def align_ylabels(self, *args):
        pass
    def savefig(self, *args, **kwargs):
        DRAWN("save")


def subplots(nrows=1, ncols=1, **kwargs):
    axes = [Axis() for _ in range(nrows)]
    fig = Figure(axes)
    FIGURES(fig)
    return fig, (axes if nrows > 1 else axes[0])
'''


def pyplot(it, figures, drawn, backend="agg"):
    """Install summaries of matplotlib.pyplot: every figure made is appended to `figures`, every drawing to `drawn`."""
    from .values import Native
    ns = load(it)
    g = it.load_text("gemspec.figure", FIGURE, Axis=ns["Axis"],
                     FIGURES=Native("FIGURES", lambda i, a, k: figures.append(a[0])), DRAWN=Native("DRAWN", lambda i, a, k: drawn.append(a[0]))).ns
    f = it.ext.fns
    for p in ("matplotlib.pyplot.", "matplotlib."):
        f[p + "subplots"] = lambda i, a, k: i.call(g["subplots"], a, k)
        f[p + "get_backend"] = lambda i, a, k: backend
        for n in ("pause", "close", "show", "ion", "draw"):
            f[p + n] = lambda i, a, k: None
    return ns
