"""Independent meaning of symbolic counts: residues modulo anything.

Walks the expression (sum, product, exact quotient, power) itself; none of the
repository's arithmetic is used.
"""
from __future__ import annotations

import sys
from functools import lru_cache

num = None


class Unknown(Exception):
    pass


def setup(module):
    global num
    num = module


@lru_cache(maxsize=100_000)
def factor(m: int) -> tuple:
    out = []
    d = 2
    while d * d <= m:
        if m % d == 0:
            e = 0
            while m % d == 0:
                m //= d
                e += 1
            out.append((d, e))
        d += 1 if d == 2 else 2
        if d > 3_000_000:
            raise Unknown('modulus')
    if m > 1:
        out.append((m, 1))
    return tuple(out)


@lru_cache(maxsize=100_000)
def totient(m: int) -> int:
    r = 1
    for p, e in factor(m):
        r *= (p - 1) * p ** (e - 1)
    return r


def at_least(expr, bound: int) -> bool:
    """expr >= bound, for exponents (positive)"""
    if isinstance(expr, int):
        return expr >= bound
    v = small(expr)
    return v is None or v >= bound


class deep:
    """more stack for the walk itself; the repository keeps its own limit"""

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        if self.old < 30_000:
            sys.setrecursionlimit(30_000)

    def __exit__(self, typ, e, tb):
        sys.setrecursionlimit(self.old)
        if typ is RecursionError:
            raise Unknown('too deep') from None


def small(expr, bits: int = 4096):
    """exact value if it is an integer of at most `bits` bits, else None"""
    if isinstance(expr, int):
        return expr
    with deep():
        return _small(expr, bits, {})


def _small(expr, bits, memo):
    if isinstance(expr, int):
        return expr
    key = id(expr)
    if key in memo:
        return memo[key]
    memo[key] = r = _small1(expr, bits, memo)
    return r


def _small1(expr, bits, memo):
    k = kind(expr)
    if k == 'exp':
        e = _small(expr.exp, bits, memo)
        if e is None or e < 0 or e > bits or e * expr.base.bit_length() > bits:
            return None
        return expr.base ** e
    if k == 'div':
        n = _small(expr.num, bits, memo)
        return None if n is None else n // expr.den
    if k in ('add', 'mul'):
        a, b = _small(expr.l, bits, memo), _small(expr.r, bits, memo)
        if a is None or b is None:
            return None
        return a + b if k == 'add' else a * b
    raise Unknown(k)


def kind(e) -> str:
    for name, k in (('Exp', 'exp'), ('Add', 'add'), ('Mul', 'mul'), ('Div', 'div'), ('Tet', 'tet')):
        cls = getattr(num, name, None)
        if cls is not None and isinstance(e, cls):
            return k
    raise Unknown(type(e).__name__)


def value_mod(expr, m: int, memo=None) -> int:
    if isinstance(expr, int):
        return expr % m
    with deep():
        return _mod(expr, m, {} if memo is None else memo)


def _mod(expr, m, memo):
    if isinstance(expr, int):
        return expr % m
    if m == 1:
        return 0
    key = (id(expr), m)
    if key in memo:
        return memo[key]
    k = kind(expr)
    if k == 'add':
        r = (_mod(expr.l, m, memo) + _mod(expr.r, m, memo)) % m
    elif k == 'mul':
        r = _mod(expr.l, m, memo) * _mod(expr.r, m, memo) % m
    elif k == 'div':
        r = _mod(expr.num, m * expr.den, memo) // expr.den
    elif k == 'exp':
        r = power_mod(expr.base, expr.exp, m, memo)
    else:
        raise Unknown(k)
    memo[key] = r
    return r


def power_mod(base: int, exp, m: int, memo) -> int:
    if isinstance(exp, int):
        return pow(base, exp, m)
    phi = totient(m)
    bound = m.bit_length()
    if at_least(exp, bound):
        # generalised Euler: b^e = b^(e mod phi + phi) (mod m) for e >= log2 m
        return pow(base, _mod(exp, phi, memo) + phi * ((bound // phi) + 1), m)
    return pow(base, small(exp), m)
