"""Reference model: plain Turing machine (C core) and independent program text.

Program text: states separated by two blanks, colours by one blank, an
instruction is <colour><L|R><state letter>, anything else is undefined.
"""
from __future__ import annotations

import ctypes as ct

from build import build_ref

Table = list  # table[state][color] = (color, right, state) | None


def parse(prog: str) -> Table:
    table = []
    for part in prog.strip().split('  '):
        row = []
        for word in part.split(' '):
            if len(word) < 3 or word[-2] not in 'LR' or not word[:-2].isdigit() \
                    or not ('A' <= word[-1] <= 'Z'):
                row.append(None)
            else:
                row.append((int(word[:-2]), word[-2] == 'R', ord(word[-1]) - 65))
        table.append(row)
    return table


def show(table: Table) -> str:
    return '  '.join(' '.join(
        '...' if i is None else f'{i[0]}{"R" if i[1] else "L"}{chr(65 + i[2])}'
        for i in row) for row in table)


def dims(table: Table) -> tuple[int, int]:
    """states, colours: everything mentioned anywhere"""
    s = max([len(table)] + [1 + i[2] for row in table for i in row if i])
    c = max([max(len(r) for r in table)] + [1 + i[0] for row in table for i in row if i])
    return s, c


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ct.CDLL(str(build_ref()))
        P, L, LL, I = ct.c_void_p, ct.c_long, ct.c_longlong, ct.c_int
        B = ct.c_char_p
        for name, res, args in (
            ('tm_new', P, [I, I, ct.POINTER(ct.c_int16), L]),
            ('tm_free', None, [P]),
            ('tm_load', I, [P, I, B, L, I, B, L]),
            ('tm_run', LL, [P, LL]),
            ('tm_trail', LL, [P, B, LL]),
            ('tm_match', I, [P, I, B, L, I, B, L]),
            ('tm_seek', LL, [P, I, B, L, I, B, L, LL, LL]),
            ('tm_seek_blank', LL, [P, LL]),
            ('tm_seek_spin', LL, [P, LL]),
            ('tm_info', None, [P, ct.POINTER(LL)]),
            ('tm_cells', None, [P, B, B]),
        ):
            f = getattr(_lib, name)
            f.restype, f.argtypes = res, args
    return _lib


class TM:
    def __init__(self, table: Table, half: int = 60_000):
        s, c = dims(table)
        arr = (ct.c_int16 * (3 * s * c))()
        for i in range(s):
            for j in range(c):
                k = 3 * (i * c + j)
                ins = table[i][j] if i < len(table) and j < len(table[i]) else None
                arr[k], arr[k + 1], arr[k + 2] = (-1, 0, 0) if ins is None else \
                    (ins[0], int(ins[1]), ins[2])
        self.table = table
        self.l = lib()
        self.h = self.l.tm_new(s, c, arr, half)
        self.half = half

    def __del__(self):
        if getattr(self, 'h', None):
            self.l.tm_free(self.h)
            self.h = None

    def load(self, state, left: bytes, scan: int, right: bytes) -> bool:
        return self.l.tm_load(self.h, state, left, len(left), scan, right, len(right)) == 0

    def run(self, n: int) -> int:
        return self.l.tm_run(self.h, n)

    def trail(self, n: int) -> bytes:
        """the slots of the next n steps, the last one first"""
        out = ct.create_string_buffer(n)
        got = self.l.tm_trail(self.h, out, n)
        return out.raw[n - got:]

    def match(self, state, left, scan, right) -> bool:
        return bool(self.l.tm_match(self.h, state, left, len(left), scan, right, len(right)))

    def seek(self, state, left, scan, right, min_steps=0, fuel=1_000_000) -> int:
        return self.l.tm_seek(self.h, state, left, len(left), scan, right, len(right),
                              min_steps, fuel)

    def seek_blank(self, fuel) -> int:
        return self.l.tm_seek_blank(self.h, fuel)

    def seek_spin(self, fuel) -> int:
        return self.l.tm_seek_spin(self.h, fuel)

    def info(self) -> dict:
        o = (ct.c_longlong * 8)()
        self.l.tm_info(self.h, o)
        return dict(zip(('state', 'scan', 'steps', 'marks', 'status', 'nl', 'nr', 'pos'), o))

    @property
    def halted(self) -> bool:
        return self.info()['status'] == 1

    def config(self):
        """(state, left cells nearest first, scan, right cells), trimmed"""
        i = self.info()
        lb, rb = ct.create_string_buffer(i['nl'] + 1), ct.create_string_buffer(i['nr'] + 1)
        self.l.tm_cells(self.h, lb, rb)
        return (i['state'], lb.raw[:i['nl']].rstrip(b'\0'), i['scan'],
                rb.raw[:i['nr']].rstrip(b'\0'))
