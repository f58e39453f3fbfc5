from decimal import Decimal
from urllib.parse import quote, quote_plus
from hypothesis import strategies as st
from ref import enc
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, addr_type, LIB_ERRORS
from checks.c02 import mutation, mutate

check = Check('C32', 'payment requests (address of either network and type x amount x label, message, r and other parameters with arbitrary text) built, '
              'written and read back; URI texts built by the reference; damaged addresses, amounts and arbitrary text; non-trivial: has an '
              'amount or a parameter that needs escaping, or is damaged')
MAX = 21 * 10 ** 14
text = st.one_of(st.text(min_size=1, max_size=20), st.text('abc &=?#%+;/:', min_size=1, max_size=12), st.sampled_from(
    ['a b', 'a+b', 'a&b=c', '100%', '%41', 'ñandú', '日本', '"quoted"', 'x;y', '#frag', '\n', '\t', ' ', '+', '=', '&', '?', 'http://x.y/z?a=b&c=d', '\u202e', '\0', 'é' * 10]))
key = st.one_of(st.text('abcdefghijklmnopqrstuvwxyz-', min_size=1, max_size=8), st.sampled_from(['req-x', 'req-', 'x-amount', 'Amount', 'AMOUNT', 'amount ', 'rr', 'R', 'Label', 'size', 'time', 'send', 'req-amount', 'a', '0', 'addresses', 'uri', 'network', 'extras', 'self']), text).filter(lambda s: s not in ('address', 'amount', 'message', 'label', 'r'))
amount = st.one_of(st.none(), st.integers(0, MAX), st.sampled_from([0, 1, 10, 100, 1000, 9999, 10000, 12345, 10 ** 8, 10 ** 8 + 1, 5 * 10 ** 9, MAX, MAX - 1, 29000000, 57000000]), st.integers(0, 10 ** 6))
addr = st.tuples(gen.h20, gen.net, st.sampled_from(['pubkeyhash', 'scripthash'])).map(list)
req = st.fixed_dictionaries({'addr': addr, 'amount': amount, 'label': st.one_of(st.none(), text), 'message': st.one_of(st.none(), text), 'r': st.one_of(st.none(), text),
                             'extras': st.dictionaries(key, text, max_size=3)})
VER = {('livenet', 'pubkeyhash'): 0, ('livenet', 'scripthash'): 5, ('testnet', 'pubkeyhash'): 111, ('testnet', 'scripthash'): 196}


def addr_text(a):
    return enc.b58check(bytes([VER[(a[1], a[2])]]) + a[0])


def holds(c, u, k, what):
    c.eq(u.address.to_string(), addr_text(k['addr']), what + ': address')
    c.eq(u.address.phash, k['addr'][0], what + ': address hash')
    c.eq(u.address.network.name, k['addr'][1], what + ': network')
    if k['amount'] is None:
        c.ok(u.amount is None, what + ': an amount appeared', u.amount)
    else:
        c.ok(u.amount is not None, what + ': the amount is gone')
        c.eq(u.amount.satoshis, k['amount'], what + ': amount')
    for f in ('label', 'message', 'r'):
        if k[f] is not None:
            c.eq(getattr(u, f, None), k[f], what + ': ' + f)
        else:
            c.ok(not getattr(u, f, None), what + ': a %s appeared' % f)
    c.eq(dict(u.extras), dict(k['extras']), what + ': other parameters')


def args_of(k):
    d = {'address': addr_text(k['addr'])}
    for f in ('amount', 'label', 'message', 'r'):
        if k[f] is not None:
            d[f] = k[f]
    d.update(k['extras'])
    return d


@check.sub('round-trip', req, quick=4000, thorough=100000)
def round_trip(c, k):
    d = args_of(k)
    u = bf.URI(dict(d))
    holds(c, u, k, 'as built')
    s = u.to_uri()
    c.ok(isinstance(s, str) and s.startswith('bitcoin:' + addr_text(k['addr'])), 'not a bitcoin URI of that address', s)
    c.ok(all(33 <= ord(x) < 127 for x in s), 'characters that may not stand in a URI', s)
    if k['amount'] is not None:
        a = [p[7:] for p in s.split('?', 1)[1].split('&') if p.startswith('amount=')]
        c.ok(len(a) == 1, 'no amount in the text', s)
        c.ok(all(ch in '0123456789.' for ch in a[0]), 'the amount is not a plain decimal', a[0])
        c.eq(int(Decimal(a[0]) * 10 ** 8), k['amount'], 'amount as written (%s)' % a[0])
    c.eq(bf.URI.is_valid(s), True, 'is_valid of a URI just written')
    v = bf.URI(s)
    holds(c, v, k, 'read back')
    c.eq(v.to_uri(), s, 'written a second time')
    if k['amount'] is not None or k['extras'] or k['label'] or k['message'] or k['r']:
        c.nt('amount' if k['amount'] is not None else 'no amount', '%d parameters' % (len(d) - 1))


@check.sub('many', st.tuples(req, st.integers(4, 60), st.integers(0, 10 ** 6)).map(list), quick=150, thorough=3000,
           fixed=lambda: [[{'addr': [b'\7' * 20, 'livenet', 'pubkeyhash'], 'amount': 12345, 'label': 'a b', 'message': 'c&d', 'r': 'x', 'extras': {}}, n, n] for n in list(range(1, 40)) + [64, 65, 100, 101, 128, 255, 256, 257, 1000, 1001]])
def many(c, k):
    """Requests of many further parameters, or with long values"""
    k, n, seed = k
    extras = dict(k['extras'])
    for i in range(n):
        v = seed * 31 + i * 17
        extras['p%d' % (v if seed % 2 else i)] = chr(97 + v % 26) * (1 + v % 40) + ['', ' ', '&', '%2'][v % 4]
    round_trip(c, dict(k, extras=extras))
    for f in ('label', 'message', 'r'):
        round_trip(c, dict(k, **{f: ('%s ' % f) * n * 20}))


@check.sub('read', st.tuples(req, st.integers(0, 23), st.booleans(), st.sampled_from(['bitcoin:', 'BITCOIN:', 'Bitcoin:', 'bitcoin://']), st.integers(0, 8), st.sampled_from(['', '', "/?:@-._~!$'()*,;", ';', '/:?'])).map(list), quick=2500, thorough=50000)
def read(c, k):
    """Texts written by someone else: any order of parameters, either escaping of spaces, characters left unescaped that may be, amounts with trailing zeros"""
    k, perm, plus, scheme, zeros, safe = k
    q = quote_plus if plus else quote
    p = []
    if k['amount'] is not None:
        a = '%d.%08d' % divmod(k['amount'], 10 ** 8)
        a = a.rstrip('0') if zeros % 2 else a
        if a.endswith('.'):
            a = a[:-1] if zeros % 3 else a + '0'
        p.append(('amount', a))
    p += [(f, k[f]) for f in ('label', 'message', 'r') if k[f] is not None] + sorted(k['extras'].items())
    if p:
        r = perm % len(p)
        p = p[r:] + p[:r]
    s = scheme + addr_text(k['addr']) + ('?' + '&'.join(q(a, safe=safe) + '=' + q(b, safe=safe) for a, b in p) if p else '')
    c.eq(bf.URI.is_valid(s), True, 'is_valid of %r' % s)
    holds(c, bf.URI(s), k, 'read')
    if p:
        c.nt(scheme)


BADAMT = st.one_of(st.sampled_from(['', 'bad', '1,5', '1.2.3', '0x10', '--1', '1 2', 'inf', '-inf', 'nan', 'infinity', '.', 'one', '1btc']), st.text('abcxyz', min_size=1, max_size=5))


@check.sub('damaged', st.tuples(req, st.one_of(st.none(), mutation), BADAMT, st.booleans()).map(list), quick=2500, thorough=40000)
def damaged(c, k):
    """An address that is not valid, or an amount that is no number: not valid"""
    k, mut, bad, both = k
    a = addr_text(k['addr'])
    if mut is not None:
        b = mutate(a, mut)
        b = ''.join(ch for ch in b if ch not in '?#&/;:%@[]\\ \t\r\n')
        try:
            raw = enc.b58check_dec(b)
            good = raw is not None and len(raw) == 21 and raw[0] in VER.values()
        except Exception:
            good = False
        s = 'bitcoin:' + b
        c.eq(bf.URI.is_valid(s), good, 'is_valid of %r' % s)
        if not good:
            c.rejects('URI %r' % s, lambda: bf.URI(s))
            c.nt('address')
    if bad:
        s = 'bitcoin:' + a + '?amount=' + quote(bad, safe='')
        c.eq(bf.URI.is_valid(s), False, 'is_valid of %r' % s)
        c.nt('amount')


@check.sub('address-parameter', st.tuples(addr, addr, st.sampled_from(['address', 'Address', 'addr', 'netloc', 'path', 'scheme', 'fragment', 'self']), st.booleans()).map(list), quick=300, thorough=4000)
def address_parameter(c, k):
    """A parameter never takes the place of the address paid to"""
    a, b, name, amt = k
    s = 'bitcoin:' + addr_text(a) + '?' + ('amount=0.5&' if amt else '') + name + '=' + addr_text(b)
    if bf.URI.is_valid(s):
        u = bf.URI(s)
        c.eq(u.address.to_string(), addr_text(a), 'address of %r' % s)
        c.ok(u.to_uri().startswith('bitcoin:' + addr_text(a)), 'another address is written', u.to_uri())
    c.nt(name)


@check.sub('total', st.one_of(st.text(max_size=30), st.tuples(st.sampled_from(['bitcoin:', 'bitcoin://', 'bitcoin:[', 'http://[', '', 'bitcoin:?', '//']), st.text(max_size=30)).map(''.join),
                             st.tuples(addr, st.text('?&=#amountlbe0123456789.eE+-%;/[]@:_', max_size=25)).map(lambda t: 'bitcoin:' + addr_text(t[0]) + t[1])), quick=4000, thorough=100000,
           fixed=lambda: ['bitcoin:1DP69gMMvSuYhbnxsi4EJEFufUAbDrEQfj?amount=' + x for x in ('inf', 'nan', '1e999', '-inf', '1e308', '', '9' * 400, '1_0', '١', '1e-400')]
           + ['bitcoin://[', 'bitcoin://[::1', 'http://[x]', '', ':', '?', '\ud7ff', 'bitcoin:é'])
def total(c, s):
    """is_valid answers yes or no for any text, and says what the constructor does"""
    v = bf.URI.is_valid(s)
    c.ok(v is True or v is False, 'is_valid is not a boolean', v)
    try:
        u = bf.URI(s)
        ok = True
    except Exception:
        ok = False
    c.eq(v, ok, 'is_valid of %r against the constructor' % s)
    if ok:
        w = u.to_uri()
        x = bf.URI(w)
        c.eq(x.to_uri(), w, 'written a second time')
        c.eq(x.address.to_string(), u.address.to_string(), 'address')
        c.nt('valid')


@check.sub('others', st.one_of(st.integers(), st.none(), st.booleans(), st.binary(max_size=40), st.lists(st.text(max_size=5), max_size=3)), quick=100,
           fixed=lambda: [None, 0, 5, True, [], ['address'], b'bitcoin:1DP69gMMvSuYhbnxsi4EJEFufUAbDrEQfj'])
def others(c, v):
    """What is neither a text nor a request is refused"""
    c.rejects('URI(%r)' % (v,), lambda: bf.URI(v), ValueError)
    c.nt(type(v).__name__)


@check.sub('around', st.tuples(addr, st.sampled_from(['/', '//', '.', '-', ' ', '%20', '+', '1', '0', 'O', ',', ':', '@', '/1', '%31', '=', '!', '"', "'", '<', '>']), st.booleans(), st.booleans()).map(list), quick=400, thorough=4000)
def around(c, k):
    """Nothing may stand before or after the address in its place"""
    a, x, before, amt = k
    if before and x == '//':        # bitcoin://address is read as bitcoin:address
        return
    s = 'bitcoin:' + (x + addr_text(a) if before else addr_text(a) + x) + ('?amount=1' if amt else '')
    c.eq(bf.URI.is_valid(s), False, 'validity of %r' % s)
    c.nt('before' if before else 'after')
