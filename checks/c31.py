import random
from decimal import Decimal
from fractions import Fraction
from hypothesis import strategies as st
from vp.core import Check
from vp.lib import bf

check = Check('C31', 'every kind of amount of satoshis from 0 to 21 million bitcoins (random, near powers of ten and two, one digit off), given as number or '
              'decimal text in each unit; rates; non-trivial: the amount is not a round number in the unit it goes through')
U = bf.Unit
MAX = 21 * 10 ** 14
SCALE = {'satoshis': 1, 'bits': 100, 'mbtc': 10 ** 5, 'btc': 10 ** 8}
amount = st.one_of(
    st.integers(0, MAX), st.integers(0, 10 ** 9), st.integers(0, 2000),
    st.tuples(st.integers(0, 15), st.integers(-3, 3), st.integers(1, 20)).map(lambda t: max(0, min(MAX, t[2] * 10 ** t[0] + t[1]))),
    st.tuples(st.integers(0, 50), st.integers(-2, 2)).map(lambda t: max(0, min(MAX, 2 ** t[0] + t[1]))),
    st.integers(MAX - 10 ** 6, MAX))
EDGES = [0, 1, 2, 3, 7, 9, 10, 29, 57, 58, 99, 100, 101, 113, 115, 999, 1001, 28999999, 29000000, 57000000, 58000000, 112999999, 113000000, 114999999, 115000000, 10 ** 8 - 1, 10 ** 8,
         10 ** 8 + 1, MAX - 1, MAX, 2099999999999999, 1999999999999999, 1234567890123456, 2 ** 50 + 1]


@check.sub('convert', amount, quick=8000, thorough=300000, fixed=lambda: EDGES + list(range(0, 1500)))
def convert(c, n):
    u = U(satoshis=n)
    c.eq(u.satoshis, n, 'satoshis')
    for name, sc in SCALE.items():
        v = getattr(u, name)
        exact = Fraction(n, sc)
        # n / sc is the float nearest to the quotient
        c.ok(v == n / sc, 'value in %s of %d satoshis' % (name, n), v)
        back = U(**{name: v})
        c.eq(back.satoshis, n, '%d satoshis through %s' % (n, name))
        c.eq((back.bits, back.mbtc, back.btc), (u.bits, u.mbtc, u.btc), 'other units after going through ' + name)
    # the same amount written in decimal and read as a float by the caller
    for name, sc in SCALE.items():
        text = format(Decimal(n) / sc, 'f')
        c.eq(U(**{name: float(text)}).satoshis, n, '%s %s given as a float' % (text, name))
    c.ok(isinstance(u.satoshis, int), 'satoshis are not an integer', u.satoshis)
    c.eq(str(u), '%d satoshis' % n, 'as text')
    c.eq(repr(u), '<Unit: %d satoshis>' % n, 'repr')
    if n % 100 or n >= 2 ** 53 // 1000:
        c.nt()


def through(c, n):
    u = U(satoshis=n)
    for name, sc in SCALE.items():
        v = getattr(u, name)
        c.ok(v == n / sc, 'value in %s of %d satoshis' % (name, n), v)
        c.eq(U(**{name: v}).satoshis, n, '%d satoshis through %s' % (n, name))


@check.sub('many', st.tuples(st.integers(0, 2 ** 64 - 1), st.integers(0, 3)).map(list), quick=1600, thorough=40000)
def many(c, k):
    """A thousand amounts drawn from a seed, most of them close to the limit, where the precision is tightest"""
    seed, zone = k
    rnd = random.Random(seed)
    lo = [0, 2 ** 50, 2 ** 34 * 10 ** 5, MAX - 10 ** 13][zone]
    for i in range(1000):
        through(c, rnd.randint(lo, MAX))
    c.nt('zone %d' % zone)


@check.sub('distinct', st.tuples(amount, st.integers(1, 5)).map(list), quick=1500, thorough=30000)
def distinct(c, k):
    """One satoshi more is a different, larger amount in every unit"""
    n, d = k
    m = min(MAX, n + d)
    a, b = U(satoshis=n), U(satoshis=m)
    if n < m:
        for name in SCALE:
            c.ok(getattr(a, name) < getattr(b, name), '%d and %d satoshis in %s' % (n, m, name), getattr(a, name), getattr(b, name))
        c.nt()


@check.sub('integers', st.tuples(st.sampled_from(['satoshis', 'bits', 'mbtc', 'btc']), st.integers(0, 21 * 10 ** 6)).map(list), quick=1000, thorough=20000)
def integers(c, k):
    """Whole numbers of a unit"""
    name, n = k
    c.eq(U(**{name: n}).satoshis, n * SCALE[name], '%d %s' % (n, name))
    c.eq(U(**{name: float(n)}).satoshis, n * SCALE[name], '%d.0 %s' % (n, name))
    if n:
        c.nt(name)


@check.sub('fiat', st.tuples(st.integers(1, 10 ** 9), st.integers(1, 10 ** 8), st.integers(0, 3)).map(list), quick=1500, thorough=30000)
def fiat(c, k):
    """Money at a rate, both ways, to within half a satoshi and float precision"""
    cents, rate, d = k
    value, r = cents / 100.0, rate / 10.0 ** d
    exact = Fraction(value) / Fraction(r) * 10 ** 8
    if exact > MAX:
        return
    u = U.from_fiat(value, r)
    c.ok(abs(u.satoshis - exact) <= Fraction(1, 2) + exact / 2 ** 50, '%r at %r' % (value, r), u.satoshis, float(exact))
    want = Fraction(u.satoshis, 10 ** 8) * Fraction(r)
    c.ok(abs(Fraction(u.at_rate(r)) - want) <= want / 2 ** 50, 'at_rate', u.at_rate(r), float(want))
    c.nt()


@check.sub('arguments', None, fixed=lambda: [0])
def arguments(c, _):
    c.rejects('no amount', lambda: U(), ValueError)
    c.nt()
