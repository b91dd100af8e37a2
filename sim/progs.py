"""Program generators (independent of the repository)."""
from __future__ import annotations

import random
from functools import lru_cache
from pathlib import Path

from plain import parse, show

CORPUS = Path(__file__).resolve().parent.parent / 'data' / 'corpus.txt'
RULED = CORPUS.with_name('rules.txt')


@lru_cache
def corpus() -> list[str]:
    return CORPUS.read_text().splitlines()


@lru_cache
def corpus_small(states: int, colors: int) -> list[str]:
    out = []
    for p in corpus():
        t = parse(p)
        if len(t) <= states and len(t[0]) <= colors:
            out.append(p)
    return out


SHAPES = [(2, 2)] * 3 + [(3, 2)] * 5 + [(4, 2)] * 4 + [(2, 3)] * 4 + [(5, 2), (3, 3), (2, 4), (2, 4)]


def rand_table(rng: random.Random, states: int, colors: int, undef: float,
               same: float = 0.0):
    t = []
    for s in range(states):
        row = []
        for c in range(colors):
            if rng.random() < undef:
                row.append(None)
            else:
                nx = s if rng.random() < same else rng.randrange(states)
                row.append((rng.randrange(colors), rng.random() < 0.5, nx))
        t.append(row)
    return t


def random_prog(rng: random.Random, shape=None) -> str:
    states, colors = shape or rng.choice(SHAPES)
    t = rand_table(rng, states, colors, rng.choice([0, .05, .15]), rng.choice([0, .2, .4]))
    if rng.random() < .9:
        t[0][0] = (1, True, 1 % states)
    if t[0][0] is None:
        t[0][0] = (1, True, 1 % states)
    return show(t)


def tnf_prog(rng: random.Random, shape=None, limit: int = 3_000) -> str:
    """Grow a program lazily: instructions are chosen when first reached."""
    states, colors = shape or rng.choice(SHAPES)
    t = [[None] * colors for _ in range(states)]
    t[0][0] = (1, True, 1)
    same = rng.choice([0.1, .3, .45])
    hole = rng.choice([0, 0, .08])
    tape: dict[int, int] = {}
    pos = st = 0
    seen_s, seen_c = 2, 2
    for _ in range(limit):
        c = tape.get(pos, 0)
        ins = t[st][c]
        if ins is None:
            if rng.random() < hole or all(i for row in t for i in row):
                break
            lim_s, lim_c = min(states, seen_s + 1), min(colors, seen_c + 1)
            nx = st if rng.random() < same else rng.randrange(lim_s)
            ins = t[st][c] = (rng.randrange(lim_c), rng.random() < .5, nx)
            seen_s, seen_c = max(seen_s, nx + 1), max(seen_c, ins[0] + 1)
        tape[pos] = ins[0]
        pos += 1 if ins[1] else -1
        st = ins[2]
    if rng.random() < .7:       # fill what was never reached
        for s in range(states):
            for c in range(colors):
                if t[s][c] is None and rng.random() < .6:
                    t[s][c] = (rng.randrange(colors), rng.random() < .5, rng.randrange(states))
    return show(t)


def mutate(rng: random.Random, prog: str) -> str:
    t = parse(prog)
    states, colors = len(t), len(t[0])
    for _ in range(rng.choice([1, 1, 2])):
        s, c = rng.randrange(states), rng.randrange(colors)
        ins = t[s][c]
        k = rng.randrange(5)
        if ins is None or k == 0:
            t[s][c] = (rng.randrange(colors), rng.random() < .5, rng.randrange(states))
        elif k == 1:
            t[s][c] = (ins[0], not ins[1], ins[2])
        elif k == 2:
            t[s][c] = (rng.randrange(colors), ins[1], ins[2])
        elif k == 3:
            t[s][c] = (ins[0], ins[1], rng.randrange(states))
        elif (s, c) != (0, 0):
            t[s][c] = None
    return show(t)


@lru_cache
def ruled() -> list[str]:
    return RULED.read_text().splitlines()


def rule_prog(rng: random.Random) -> str:
    """Programs known to have rules proved for them, of many kinds; or close relatives."""
    p = rng.choice(ruled())
    return mutate(rng, p) if rng.random() < .15 else p


@lru_cache
def sharp() -> list[str]:
    """programs on which a prover that looks a little less closely does something else within 3000 cycles"""
    return CORPUS.with_name('sharp.txt').read_text().splitlines()


@lru_cache
def big() -> list[tuple[int, str]]:
    """programs whose counts outgrow 64 bits, with a budget in which they do"""
    return [(int(n), p) for n, p in (l.split('\t') for l in CORPUS.with_name('big.txt').read_text().splitlines())]


def sums() -> list[tuple[int, str]]:
    """programs whose sums of counts outgrow 64 bits, with a budget in which they do"""
    return [(int(n), p) for n, p in (l.split('\t') for l in CORPUS.with_name('sums.txt').read_text().splitlines())]


def any_prog(rng: random.Random, shape_max=(6, 5)) -> str:
    k = rng.random()
    if k < .3:
        return rng.choice(corpus_small(*shape_max))
    if k < .5:
        return mutate(rng, rng.choice(corpus_small(*shape_max)))
    if k < .7:
        return random_prog(rng)
    return tnf_prog(rng)


def slots(prog: str) -> int:
    return sum(1 for row in parse(prog) for i in row if i)


def screen(prog: str, steps: int = 3_000) -> bool:
    """Long-lived, growing, not merely running away: where rules get proved."""
    from plain import TM
    m = TM(parse(prog), 4_000)
    if m.run(200) < 200:
        return False
    if m.seek_spin(100) >= 0:
        return False
    a = m.info()
    if m.run(steps) < steps:
        return True
    b = m.info()
    width = b['nl'] + b['nr']
    grew = width - a['nl'] - a['nr']
    return 3 < grew < steps // 12


def lively_prog(rng: random.Random, tries: int = 60) -> str:
    p = ''
    for _ in range(tries):
        k = rng.random()
        p = (mutate(rng, rng.choice(corpus_small(5, 5))) if k < .4 else
             tnf_prog(rng, limit=400) if k < .8 else
             random_prog(rng))
        if screen(p):
            break
    return p


def halting_prog(rng: random.Random, tries: int = 120) -> str:
    """Stops, but only after a while."""
    from plain import TM
    p = ''
    for _ in range(tries):
        k = rng.random()
        if k < .4:
            t = parse(rng.choice(corpus_small(5, 5)))
            s, c = rng.randrange(len(t)), rng.randrange(len(t[0]))
            if (s, c) != (0, 0):
                t[s][c] = None
            p = show(t)
        elif k < .7:
            p = mutate(rng, rng.choice(corpus_small(5, 5)))
        else:
            p = tnf_prog(rng, limit=400)
        m = TM(parse(p), 8_000)
        if m.run(60) < 60:
            continue
        m.run(40_000)
        if m.info()['status'] == 1:
            break
    return p


def sparse_prog(rng: random.Random) -> str:
    """Whole rows or columns left open: the table's declared size and the part
    of it that is defined differ."""
    t = parse(halting_prog(rng) if rng.random() < .5 else tnf_prog(rng))
    k = rng.random()
    if k < .5:
        c = rng.randrange(1, len(t[0]))
        for row in t:
            row[c] = None
    elif len(t) > 1:
        s = rng.randrange(1, len(t))
        t[s] = [None] * len(t[0])
    return show(t)
