"""Stand-in for the plotting back ends: records what is handed to them (used alike by the symbolic and the real runs)."""

LINES = ('plot', 'loglog', 'semilogx', 'semilogy')


class Canvas:
    """figure or axes"""

    def __init__(self, log, name, kind):
        self.__dict__.update(_log=log, _name=name, _kind=kind)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def call(*a, **k):
            self._log.append((self._name, n, a, k))
            if n in LINES:
                return [Canvas(self._log, self._name + '.line', 'artist')]
            if n in ('add_subplot', 'gca', 'add_axes', 'subplots'):
                return Canvas(self._log, self._name.replace('fig', 'ax'), 'axes')
            if n in ('get_ylim', 'get_xlim', 'set_ylim', 'set_xlim'):
                return (1.0, 2.0)
            return Canvas(self._log, self._name + '.' + n, 'artist')
        return call


class Record:
    def __init__(self):
        self.log, self.made = [], 0

    def new(self, *a, **k):
        self.made += 1
        return Canvas(self.log, 'fig%d' % self.made, 'figure'), Canvas(self.log, 'ax%d' % self.made, 'axes')

    def given(self):
        return Canvas(self.log, 'fig0', 'figure'), Canvas(self.log, 'ax0', 'axes')

    def seaborn(self, data=None, x=None, y=None, weights=None, ax=None, **k):
        self.log.append((ax._name if ax is not None else '?', 'kdeplot', (x, y), dict(k, weights=weights)))
        return ax

    def curves(self):
        return [dict(ax=n, x=a[0], y=a[1]) for n, f, a, k in self.log if f in LINES]

    def fills(self):
        return [dict(ax=n, x=a[0], lo=a[1] if len(a) > 1 else k.get('y1'), hi=a[2] if len(a) > 2 else k.get('y2'))
                for n, f, a, k in self.log if f == 'fill_between']

    def points(self):
        out = []
        for n, f, a, k in self.log:
            if f == 'scatter':
                a = list(a)
                out.append(dict(ax=n, x=a[0] if a else k['x'], y=a[1] if len(a) > 1 else k['y'], size=a[2] if len(a) > 2 else k.get('s')))
            elif f == 'kdeplot':
                out.append(dict(ax=n, x=a[0], y=a[1], weights=k['weights']))
            elif f == 'hist':
                out.append(dict(ax=n, x=a[0], weights=k.get('weights')))
        return out

    def names(self, pair):
        return [getattr(p, '_name', None) for p in pair]
