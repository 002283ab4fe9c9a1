"""Assumed contract of plotly: a figure keeps what it is given, in order.

Verification only: the proofs interpret this in place of the plotly package.
"""


class _Scope:
    _takes_anything = True


class _Kaleido:
    scope = _Scope()


class io:
    kaleido = _Kaleido()


class Figure:
    def __init__(self):
        self.calls = []

    def add_annotation(self, **rest):
        pass

    def update_layout(self, **rest):
        self.calls.append(("layout", rest.get("title")))

    def update_xaxes(self, range=None, **rest):
        if range is not None:
            self.calls.append(("xrange", range[0], range[1]))

    def update_yaxes(self, range=None, **rest):
        if range is not None:
            self.calls.append(("yrange", range[0], range[1]))

    def add_shape(self, type=None, x0=None, y0=None, x1=None, y1=None, label=None, line=None, fillcolor=None,
                  opacity=None, layer=None, name=None, **rest):
        self.calls.append(("shape", type, x0, y0, x1, y1, None if label is None else label["text"], len(rest)))

    def add_trace(self, trace, **rest):
        self.calls.append(("trace", trace[0], trace[1]))

    def show(self, **rest):
        self.calls.append(("show",))

    def write_html(self, file, **rest):
        self.calls.append(("html", file))

    def write_image(self, file, **rest):
        self.calls.append(("image", file))


def Scatter(x=None, y=None, **rest):
    return x, y


class graph_objects:
    Figure = Figure
    Scatter = staticmethod(Scatter)
