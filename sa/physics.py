"""Independent physical reference data and a small unit-string grammar.

This is the oracle the table checks compare against; nothing in it is read
from the analysed package.
"""

import math
import re
from fractions import Fraction

PI = math.pi
C_CM = 2.99792458e10        # speed of light, cm/s (exact)

SI_PREFIXES = {
    'Y': ('yotta', 24), 'Z': ('zetta', 21), 'E': ('exa', 18), 'P': ('peta', 15),
    'T': ('tera', 12), 'G': ('giga', 9), 'M': ('mega', 6), 'k': ('kilo', 3),
    'h': ('hecto', 2), 'da': ('deca', 1), '': ('', 0), 'd': ('deci', -1),
    'c': ('centi', -2), 'm': ('milli', -3), 'μ': ('micro', -6),
    'u': ('micro', -6), 'n': ('nano', -9), 'p': ('pico', -12),
    'f': ('femto', -15), 'a': ('atto', -18), 'z': ('zepto', -21),
    'y': ('yocto', -24), 'R': ('ronna', 27), 'Q': ('quetta', 30),
    'r': ('ronto', -27), 'q': ('quecto', -30),
}

# symbol -> (accepted names, quantity it measures)
UNITS = {
    'm': ({'meter', 'metre'}, 'length'),
    'au': ({'astronomical unit'}, 'length'),
    'Rs': ({'solar radius'}, 'length'),
    'g': ({'gram'}, 'mass'),
    'nuc': ({'nucleon'}, 'mass number'),
    'amu': ({'atomic mass unit'}, 'mass number'),
    's': ({'second'}, 'time'),
    'min': ({'minute'}, 'time'),
    'h': ({'hour'}, 'time'),
    'd': ({'day'}, 'time'),
    'A': ({'ampere'}, 'current'),
    'K': ({'kelvin'}, 'temperature'),
    'mol': ({'mole'}, 'amount'),
    '#': ({'count'}, 'number'),
    'cd': ({'candela'}, 'luminous intensity'),
    'rad': ({'radian'}, 'plane angle'),
    'deg': ({'degree'}, 'plane angle'),
    'sr': ({'steradian'}, 'solid angle'),
    'Hz': ({'hertz'}, 'frequency'),
    'J': ({'joule'}, 'energy'),
    'erg': ({'erg'}, 'energy'),
    'eV': ({'electronvolt'}, 'energy'),
    'N': ({'newton'}, 'force'),
    'dyn': ({'dyne'}, 'force'),
    'Pa': ({'pascal'}, 'pressure'),
    'W': ({'watt'}, 'power'),
    'C': ({'coulomb'}, 'charge'),
    'statC': ({'statcoulomb'}, 'charge'),
    'statA': ({'statampere'}, 'current'),
    'statV': ({'statvolt'}, 'potential'),
    'e': ({'fundamental charge', 'elementary charge'}, 'charge'),
    'V': ({'volt'}, 'potential'),
    'Ω': ({'ohm'}, 'resistance'),
    'S': ({'seimens', 'siemens'}, 'conductance'),
    'F': ({'farad'}, 'capacitance'),
    'Wb': ({'weber'}, 'magnetic flux'),
    'Mx': ({'maxwell'}, 'magnetic flux'),
    'Oe': ({'Oersted', 'oersted'}, 'magnetic intensity'),
    'H': ({'henry'}, 'inductance'),
    'T': ({'tesla'}, 'magnetic induction'),
    'G': ({'gauss'}, 'magnetic induction'),
    'lm': ({'lumen'}, 'luminous flux'),
    'lx': ({'lux'}, 'illuminance'),
    'Bq': ({'becquerel'}, 'radioactivity'),
    'Ci': ({'Curie', 'curie'}, 'radioactivity'),
    'Gy': ({'gray'}, 'dosage'),
    'P': ({'poise'}, 'viscosity'),
    '1': ({'unitless'}, 'identity'),
}

# (u0, u1) -> (factor, relative tolerance): 1 u0 = factor u1.
CONVERSIONS = {
    ('Rs', 'm'): (6.96e8, 2e-3),
    ('F', 'cm'): (C_CM ** 2 * 1e-9, 1e-3),
    ('C', 'statC'): (C_CM / 10, 1e-3),
    ('e', 'C'): (1.602176634e-19, 1e-4),
    ('S', 'cm / s'): (C_CM ** 2 * 1e-9, 1e-3),
    ('A', 'statA'): (C_CM / 10, 1e-3),
    ('Gy', 'erg / g'): (1e4, 1e-9),
    ('J', 'erg'): (1e7, 1e-9),
    ('eV', 'J'): (1.602176634e-19, 1e-4),
    ('N', 'dyn'): (1e5, 1e-9),
    ('ohm', 's / cm'): (1e9 / C_CM ** 2, 1e-3),
    ('H', 's^2 / cm'): (1e9 / C_CM ** 2, 1e-3),
    ('m', 'cm'): (1e2, 1e-9),
    ('kg', 'g'): (1e3, 1e-9),
    ('au', 'm'): (1.495978707e11, 1e-6),
    ('Wb', 'Mx'): (1e8, 1e-9),
    ('T', 'G'): (1e4, 1e-9),
    ('A / m', 'Oe'): (4 * PI * 1e-3, 1e-6),
    ('A * m^2', 'Oe * cm^3'): (1e3, 1e-9),
    ('nuc', 'kg'): (1.66053906660e-27, 1e-4),
    ('amu', 'kg'): (1.66053906660e-27, 1e-4),
    ('H / m', '1'): (1e7 / (4 * PI), 1e-3),
    ('F / m', '1'): (1 / 8.8541878128e-12, 2e-3),
    ('rad', 'deg'): (180 / PI, 1e-9),
    ('V', 'statV'): (1e8 / C_CM, 1e-3),
    ('W', 'erg / s'): (1e7, 1e-9),
    ('Pa', 'dyn / cm^2'): (1e1, 1e-9),
    ('Bq', 'Ci'): (1 / 3.7e10, 1e-9),
    ('A / Wb', '1 / cm'): (4 * PI * 1e-9, 1e-6),
    ('s', 'min'): (1 / 60, 1e-9),
    ('s', 'h'): (1 / 3600, 1e-9),
    ('s', 'd'): (1 / 86400, 1e-9),
    ('Wb / m', 'G * cm'): (1e6, 1e-9),
    ('kg / (m * s)', 'P'): (1e1, 1e-9),
    ('kg * m / s', 'g * cm / s'): (1e5, 1e-9),
    ('C / m^2', 'statC / m^2'): (4 * PI * C_CM / 10, 1e-3),
}

# Dimensions: exponents of mks base dimensions and of Gaussian (M, L, T).
H_ = Fraction(1, 2)


def d(**kw):
    return {k: Fraction(v) for k, v in kw.items() if v}


MKS_DIM = {
    'acceleration': d(L=1, T=-2),
    'amount': d(N=1),
    'area': d(L=2),
    'capacitance': d(T=4, I=2, M=-1, L=-2),
    'charge': d(I=1, T=1),
    'charge density': d(I=1, T=1, L=-3),
    'conductance': d(T=3, I=2, M=-1, L=-2),
    'conductivity': d(T=3, I=2, M=-1, L=-3),
    'current': d(I=1),
    'current density': d(I=1, L=-2),
    'displacement': d(I=1, T=1, L=-2),
    'dosage': d(L=2, T=-2),
    'electric charge': d(I=1, T=1),
    'electric field': d(M=1, L=1, T=-3, I=-1),
    'electromotance': d(M=1, L=2, T=-3, I=-1),
    'energy': d(M=1, L=2, T=-2),
    'energy density': d(M=1, L=-1, T=-2),
    'force': d(M=1, L=1, T=-2),
    'frequency': d(T=-1),
    'identity': d(),
    'illuminance': d(J=1, L=-2),
    'impedance': d(M=1, L=2, T=-3, I=-2),
    'inductance': d(M=1, L=2, T=-2, I=-2),
    'induction': d(M=1, T=-2, I=-1),
    'length': d(L=1),
    'luminous flux': d(J=1),
    'luminous intensity': d(J=1),
    'magnetic field': d(M=1, T=-2, I=-1),
    'magnetic flux': d(M=1, L=2, T=-2, I=-1),
    'magnetic induction': d(M=1, T=-2, I=-1),
    'magnetic intensity': d(I=1, L=-1),
    'magnetic moment': d(I=1, L=2),
    'magnetization': d(I=1, L=-1),
    'magnetomotance': d(I=1),
    'mass': d(M=1),
    'mass density': d(M=1, L=-3),
    'mass number': d(),
    'momentum': d(M=1, L=1, T=-1),
    'momentum density': d(M=1, L=-2, T=-1),
    'number': d(),
    'number density': d(L=-3),
    'particle distribution': d(L=-6, T=3),
    'particle fluence': d(L=-4, M=-1, T=2),
    'particle flux': d(L=-4, M=-1, T=1),
    'fluence': d(L=-4, M=-1, T=2),
    'flux': d(L=-4, M=-1, T=1),
    'integral flux': d(L=-2, T=-1),
    'permeability': d(M=1, L=1, I=-2, T=-2),
    'permittivity': d(T=4, I=2, M=-1, L=-3),
    'plane angle': d(),
    'polarization': d(I=1, T=1, L=-2),
    'potential': d(M=1, L=2, T=-3, I=-1),
    'power': d(M=1, L=2, T=-3),
    'power density': d(M=1, L=-1, T=-3),
    'pressure': d(M=1, L=-1, T=-2),
    'radioactivity': d(T=-1),
    'rate': d(T=-1),
    'ratio': d(),
    'reluctance': d(I=2, T=2, M=-1, L=-2),
    'resistance': d(M=1, L=2, T=-3, I=-2),
    'resistivity': d(M=1, L=3, T=-3, I=-2),
    'temperature': d(H=1),
    'thermal conductivity': d(M=1, L=1, T=-3, H=-1),
    'time': d(T=1),
    'solid angle': d(),
    'speed': d(L=1, T=-1),
    'vector potential': d(M=1, L=1, T=-2, I=-1),
    'velocity': d(L=1, T=-1),
    'viscosity': d(M=1, L=-1, T=-1),
    'volume': d(L=3),
    'vorticity': d(T=-1),
    'wavenumber': d(L=-1),
    'work': d(M=1, L=2, T=-2),
}

_Q = d(M=H_, L=Fraction(3, 2), T=-1)            # Gaussian charge
_B = d(M=H_, L=-H_, T=-1)                       # Gaussian field


def dmul(a, b, n=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + Fraction(n) * v
    return {k: v for k, v in out.items() if v}


CGS_DIM = {
    k: v for k, v in MKS_DIM.items() if 'I' not in v
}
CGS_DIM.update({
    'capacitance': d(L=1),
    'charge': _Q,
    'charge density': dmul(_Q, d(L=-3)),
    'conductance': d(L=1, T=-1),
    'conductivity': d(T=-1),
    'current': dmul(_Q, d(T=-1)),
    'current density': dmul(_Q, d(T=-1, L=-2)),
    'displacement': dmul(_Q, d(L=-2)),
    'electric charge': _Q,
    'electric field': _B,
    'electromotance': dmul(_B, d(L=1)),
    'impedance': d(T=1, L=-1),
    'inductance': d(T=2, L=-1),
    'induction': _B,
    'magnetic field': _B,
    'magnetic flux': dmul(_B, d(L=2)),
    'magnetic induction': _B,
    'magnetic intensity': _B,
    'magnetic moment': dmul(_B, d(L=3)),
    'magnetization': _B,
    'magnetomotance': dmul(_Q, d(T=-1)),
    'permeability': d(),
    'permittivity': d(),
    'polarization': dmul(_Q, d(L=-2)),
    'potential': dmul(_B, d(L=1)),
    'reluctance': d(L=-1),
    'resistance': d(T=1, L=-1),
    'resistivity': d(T=1),
    'vector potential': dmul(_B, d(L=1)),
})

# Dimensions of named units (system-independent spelling of MKS_DIM/CGS_DIM).
UNIT_QUANTITY = {s: q for s, (n, q) in UNITS.items()}
NAME_TO_SYMBOL = {n: s for s, (names, q) in UNITS.items() for n in names}
GAUSSIAN_UNITS = {'statC', 'statA', 'statV', 'Mx', 'Oe', 'G'}
SI_EM_UNITS = {'A', 'C', 'V', 'Ω', 'S', 'F', 'Wb', 'H', 'T'}

# SI values of named units (mechanical and counting units only).
SI_VALUE = {
    'm': 1.0, 'au': 1.495978707e11, 'Rs': 6.96e8, 'g': 1e-3,
    's': 1.0, 'min': 60.0, 'h': 3600.0, 'd': 86400.0, 'A': 1.0, 'K': 1.0,
    'mol': 1.0, '#': 1.0, 'cd': 1.0, 'rad': 1.0, 'deg': PI / 180, 'sr': 1.0,
    'Hz': 1.0, 'J': 1.0, 'erg': 1e-7, 'eV': 1.602176634e-19, 'N': 1.0,
    'dyn': 1e-5, 'Pa': 1.0, 'W': 1.0, 'C': 1.0, 'V': 1.0, 'Ω': 1.0, 'S': 1.0,
    'F': 1.0, 'Wb': 1.0, 'H': 1.0, 'T': 1.0, 'lm': 1.0, 'lx': 1.0, 'Bq': 1.0,
    'Ci': 3.7e10, 'Gy': 1.0, 'P': 0.1, '1': 1.0,
}

# Values of universal constants (SI), with a relative tolerance that allows
# the usual five-figure roundings.
CONSTANTS = {
    'pi': (PI, 1e-9, None),
    'k': (1.380649e-23, 2e-4, None),
    'e': (1.602176634e-19, 2e-4, None),
    'me': (9.1093837e-31, 2e-4, None),
    'mp': (1.67262192e-27, 2e-4, None),
    'G': (6.6743e-11, 1e-3, None),
    'g': (9.80665, 1e-4, None),
    'h': (6.62607015e-34, 2e-4, None),
    'c': (2.99792458e8, 1e-6, None),
    'epsilon0': (8.8541878e-12, 2e-4, 1.0),
    'mu0': (4e-7 * PI, 1e-6, 1.0),
    'Rinfinity': (1.0973731568e7, 2e-4, None),
    'a0': (5.29177e-11, 2e-4, None),
    're': (2.8179403e-15, 2e-4, None),
    'alpha': (7.2973526e-3, 2e-4, None),
    'c1': (3.7417718e-16, 2e-4, None),
    'c2': (1.438777e-2, 2e-4, None),
    'sigma': (5.670374e-8, 2e-4, None),
    'eV': (1.602176634e-19, 2e-4, None),
    'amu': (1.66053907e-27, 2e-4, None),
    'au': (1.495978707e11, 1e-6, None),
    'H+': (13.6 * 1.602176634e-19, 2e-3, None),
    'MeV': (1.602176634e-13, 2e-4, None),
}

# ----------------------------------------------------------------------
# unit strings
# ----------------------------------------------------------------------

TOKEN = re.compile(
    r"\s*(?:(?P<name>[^\W\d_]\w*|#|Ω|1(?![\d.]))|(?P<op>[*/()])|"
    r"\^(?P<exp>-?\d+(?:/\d+)?|\(-?\d+(?:/\d+)?\)))"
)


class UnitSyntax(ValueError):
    pass


def tokens(text):
    i, out = 0, []
    text = text.strip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            raise UnitSyntax(f"{text!r} at {i}")
        i = m.end()
        if m.group('name'):
            out.append(('name', m.group('name')))
        elif m.group('op'):
            out.append(('op', m.group('op')))
        else:
            out.append(('exp', Fraction(m.group('exp').strip('()'))))
    return out


def parse(text):
    """{name: exponent} of a unit, dimension or quantity expression."""
    toks = tokens(text)
    pos = 0

    def factor():
        nonlocal pos
        if pos >= len(toks):
            raise UnitSyntax(text)
        kind, val = toks[pos]
        pos += 1
        if kind == 'name':
            base = {} if val == '1' else {val: Fraction(1)}
        elif val == '(':
            base = product()
            if pos >= len(toks) or toks[pos] != ('op', ')'):
                raise UnitSyntax(text)
            pos += 1
        else:
            raise UnitSyntax(text)
        while pos < len(toks) and toks[pos][0] == 'exp':
            base = {k: v * toks[pos][1] for k, v in base.items()}
            pos += 1
        return base

    def product():
        nonlocal pos
        out = factor()
        while pos < len(toks) and toks[pos] != ('op', ')'):
            sign = 1
            if toks[pos] == ('op', '*'):
                pos += 1
            elif toks[pos] == ('op', '/'):
                pos += 1
                sign = -1
            out = dmul(out, factor(), sign)
        return out

    result = product()
    if pos != len(toks):
        raise UnitSyntax(text)
    return result


def split_unit(name):
    """(power of ten, base symbol) of a named unit, or None."""
    if name in UNITS:
        return 0, name
    if name in NAME_TO_SYMBOL:
        return 0, NAME_TO_SYMBOL[name]
    for p in sorted(SI_PREFIXES, key=len, reverse=True):
        if p and name.startswith(p) and name[len(p):] in UNITS:
            return SI_PREFIXES[p][1], name[len(p):]
    for p, (pn, n) in SI_PREFIXES.items():
        if pn and name.startswith(pn) and name[len(pn):] in NAME_TO_SYMBOL:
            return n, NAME_TO_SYMBOL[name[len(pn):]]
    return None


def unit_dim(text, system):
    """Dimension of a unit string in a metric system; None when unknown."""
    out = {}
    table = MKS_DIM if system == 'mks' else CGS_DIM
    for name, n in parse(text).items():
        s = split_unit(name)
        if s is None:
            return None
        sym = s[1]
        if system == 'mks' and sym in GAUSSIAN_UNITS:
            return None
        if system == 'cgs' and sym in SI_EM_UNITS:
            return None
        q = UNIT_QUANTITY[sym]
        if q not in table:
            return None
        out = dmul(out, table[q], n)
    return out


def si_value(text):
    """SI value of a unit string; None when it needs a Gaussian relation."""
    v = 1.0
    for name, n in parse(text).items():
        s = split_unit(name)
        if s is None or s[1] not in SI_VALUE:
            return None
        v *= (10.0 ** s[0] * SI_VALUE[s[1]]) ** float(n)
    return v


def showdim(x):
    if x is None:
        return '?'
    return ' '.join(f"{k}^{v}" for k, v in sorted(x.items())) or '1'
