"""U30: plots show the values asked for, in the unit asked for, against the right axis."""

from ..spec import table, Case
from .t29 import extracted, either

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the plotting functions of eprempy.physical, compared with "
    "decision tables, path by path: which values are drawn against which, with which "
    "options, where the figure goes, and which arrays are refused."
)
ASSUMPTIONS = [
    "matplotlib draws the values it is given",
    "conversion of units and measuring are as properties M01 and Q26 say",
]
A = 'eprempy.physical._array:'


def run(P, rep):
    rep.rule('drawn', "values are drawn against the axis or values asked for", 6)
    rep.rule('options', "options reach the figure or the line they are meant for", 3)
    drawn(P, rep)
    options(P, rep)


def drawn(P, rep):
    def kept(g):
        return extracted(g)
    coords = lambda x: either(f'isa({x}, physical.Coordinates)', f'isa({x}, Coordinates)')
    rows = []
    for unit in (True, False):
        a = f"array.withunit({'unit' if unit else 'array.unit'})"
        one = f"numpy.array({a}).squeeze().ndim == 1"
        nd = f"numpy.array({a}).squeeze()"
        rows.append(Case('raise NDimError', {'unit': unit, one: False}, name=f'not 1-D {unit}'))
        some = {'unit': unit, one: True}
        d = f"each({a}.shapemap)"
        axis = f"{a}.axes[{d}]"
        single = f"{a}.shapemap[{d}] == 1"
        xs = 'x is None'
        given = either('isa(x, measured.Type)', 'isa(x, physical.Type)')
        for path in (True, False):
            p = {'path is None': path}
            end = ['matplotlib.pyplot.show()' if path else 'matplotlib.pyplot.savefig(path)',
                   'matplotlib.pyplot.close()']
            not_ = ['matplotlib.pyplot.savefig(_)' if path else 'matplotlib.pyplot.show()']
            def row(x, when, name):
                rows.append(Case('return None', {**some, **p, **when},
                                 does=[f'_create_plot({x}, {nd}, *args, **extra)', *end],
                                 never=not_, name=f'{name} {unit} {path}'))
            row(f'numpy.array(quantity.measure({axis}))', {
                xs: True, single: False, coords(axis): True}, 'coordinates of the axis')
            row(f'numpy.array({axis})', {
                xs: True, single: False, coords(axis): False}, 'points of the axis')
            no = {xs: False}
            row('numpy.array(x).squeeze()', {**no, given: True}, 'values')
            no[given] = False
            row('numpy.array(quantity.measure(x))', {**no, coords('x'): True}, 'coordinates')
            no[coords('x')] = False
            row(f'numpy.array({a}.axes[x])', {**no, 'isa(x, str)': True}, 'name of an axis')
        rows.append(Case('raise TypeError', {**some, **no, 'isa(x, str)': False},
                         name=f'refused {unit}'))
    table(P, rep, 'drawn', A + 'plot', 'array *args x unit path **extra', rows, inline=kept,
          words=('_create_plot', 'array', 'squeeze', 'measure', 'axes', 'savefig', 'show',
                 'close', 'withunit', 'arange', 'range', 'len', 'data', 'unit', 'enumerate',
                 'format', 'capitalize', 'shapemap', 'next', 'add'),
          defaults={'x': None, 'unit': None, 'path': None})
    table(P, rep, 'drawn', A + 'Array.plot', '*args **kwargs', [
        Case('return plot(self, *args, **kwargs)')], inline=kept, words=('plot',))


GROUPS = ('label', 'lim', 'scale', 'bound', 'margin', 'ticklabels', 'ticks')
KEYS = tuple(x + g for g in GROUPS for x in 'xy') + ('title',)


def options(P, rep):
    key = 'each(extra)'
    ours = f"{key} in {KEYS}"
    pair = '{many(each(extra)): extra[each(extra)]}'
    sub, plot = 'matplotlib.pyplot.subplot', 'matplotlib.pyplot.plot'
    table(P, rep, 'options', A + '_create_plot', '*args **extra', [
        Case('return None', {ours: True}, does=[f'{sub}(**{pair})', f'{plot}(*args)'],
             name='of the figure', sure=True),
        Case('return None', {ours: False}, does=[f'{sub}()', f'{plot}(*args, **{pair})'],
             name='of the line', sure=True),
        Case('return None', {'extra': False}, name='none', choice=True),
    ], maybe=(2,), inline=extracted, words=('subplot', 'plot', 'subplots', 'axes'))
