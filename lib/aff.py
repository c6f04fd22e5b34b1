"""GF(2)-affine bit domain: a value is a list of bits (lsb first); a bit is an int whose binary
digits select symbols to be xor-ed (digit 0 is the constant one)."""


class Syms:
    def __init__(self): self.n = 1; self.names = ['1']; self.memo = {}

    def fresh(self, key, w):
        if (key, w) not in self.memo:
            r = []
            for k in range(w):
                r.append(1 << self.n); self.names.append('%s.%d' % (key, k)); self.n += 1
            self.memo[(key, w)] = r
        return list(self.memo[(key, w)])

    def show(self, b):
        return '^'.join(self.names[k] for k in range(self.n) if b >> k & 1) or '0'


def const(v, w): return [(v >> k) & 1 for k in range(w)]
def isc(b): return all(x in (0, 1) for x in b)
def val(b): return sum(x << k for k, x in enumerate(b))
def xor(a, b): return [x ^ y for x, y in zip(a, b)]


def table_map(tab, w):
    """(columns, constant) of an affine 256-entry table, or None"""
    t0 = tab[0]; cols = [tab[1 << k] ^ t0 for k in range(8)]
    for v in range(256):
        x = t0
        for k in range(8):
            if v >> k & 1: x ^= cols[k]
        if x != tab[v]: return None
    return cols, t0


def apply_table(m, idx, w):
    cols, t0 = m
    r = const(t0, w)
    for k in range(8):
        for j in range(w):
            if cols[k] >> j & 1: r[j] ^= idx[k]
    return r


def byte_step(state, byte, w, poly, reflected):
    """reference: one byte through a bit-serial CRC register of width w"""
    s = list(state)
    if reflected:                    # poly given in reflected form; lsb first
        for k in range(8): s[k] ^= byte[k]
        for _ in range(8):
            o = s[0]; s = s[1:] + [0]
            for j in range(w):
                if poly >> j & 1: s[j] ^= o
    else:
        for k in range(8): s[w - 8 + k] ^= byte[k]
        for _ in range(8):
            o = s[w - 1]; s = [0] + s[:-1]
            for j in range(w):
                if poly >> j & 1: s[j] ^= o
    return s
