"""Windows that cannot be opened or drawn: failures injected into matplotlib (Agg backend)."""


class Gui:
    """Windows that fail."""
    def __init__(self, how, stats):
        self.how, self.stats, self.n = how, stats, 0

    def __enter__(self):
        import matplotlib.pyplot as plt
        import matplotlib.figure as mf
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        self.saved = (plt.figure, mf.Figure.show, FigureCanvasAgg.draw, plt, mf, FigureCanvasAgg)
        g = self

        def failing(real, first=0):
            def f(*a, **k):
                g.n += 1
                if g.n > first:
                    g.stats['fault.window'] += 1
                    raise RuntimeError('cannot connect to the display')
                return real(*a, **k)
            return f
        if self.how in ('figure', 'figure_later'):
            plt.figure = failing(plt.figure, 0 if self.how == 'figure' else 1)
        elif self.how == 'show':
            mf.Figure.show = failing(mf.Figure.show)
        elif self.how == 'draw':
            FigureCanvasAgg.draw = failing(FigureCanvasAgg.draw, 1)
        elif self.how == 'canvas':
            mf.Figure.add_subplot = failing(mf.Figure.add_subplot)
        return self

    def __exit__(self, *a):
        plt_figure, show, draw, plt, mf, canvas = self.saved
        plt.figure = plt_figure
        mf.Figure.show = show
        canvas.draw = draw
        if 'add_subplot' in mf.Figure.__dict__:
            del mf.Figure.add_subplot
        plt.close('all')
