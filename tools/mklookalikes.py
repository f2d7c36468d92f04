#!/usr/bin/env python3
"""Writes spec/Lookalikes.tla: pairs of different primes (all 3 mod 4) that agree
in what a summary of a number may keep of it (python3-vt; output is committed)."""
import itertools, os, random, sys
from sympy import isprime, lcm

rng = random.Random(20)


def ok(p):
    return p % 4 == 3 and isprime(p)


def words(p, w):
    out = []
    while p:
        out.append(p & ((1 << w) - 1))
        p >>= w
    return out


def num(ws, w):
    return sum(x << (w * i) for i, x in enumerate(ws))


def perm(bits, w, keep_ends=False):
    """words of w bits in another order"""
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 3
        if not ok(p):
            continue
        ws = words(p, w)
        n = len(ws)
        for _ in range(300):
            idx = list(range(n))
            mid = idx[1:-1] if keep_ends else idx
            rng.shuffle(mid)
            o = [idx[0]] + mid + [idx[-1]] if keep_ends else mid
            q = num([ws[i] for i in o], w)
            if q != p and q.bit_length() == p.bit_length() and ok(q):
                return p, q


def shift(bits, f):
    """p and p + f(): another prime"""
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 3
        if not ok(p):
            continue
        for _ in range(4000):
            q = p + f()
            if q > 0 and q != p and q.bit_length() == p.bit_length() and ok(q):
                return p, q


def xorpair(bits, w):
    """the same bits flipped in two words: the exclusive or of the words stays"""
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 3
        if not ok(p):
            continue
        n = bits // w
        for _ in range(4000):
            i, j = sorted(rng.sample(range(n), 2))
            m = rng.getrandbits(w - 2) << 2 if i == 0 else rng.getrandbits(w - 1)
            m &= (1 << (w - 1)) - 1
            q = p ^ (m << (w * i)) ^ (m << (w * j))
            if q != p and q.bit_length() == p.bit_length() and ok(q):
                return p, q


def decimals(n):
    while True:
        p = rng.randrange(10 ** (n - 1), 10 ** n)
        if not ok(p):
            continue
        s = str(p)
        for _ in range(2000):
            mid = list(s[4:-4])
            rng.shuffle(mid)
            q = int(s[:4] + "".join(mid) + s[-4:])
            if q != p and q.bit_length() == p.bit_length() and ok(q):
                return p, q


M = int(lcm([2 ** 64 - 1, 2 ** 61 - 1, 2 ** 31 - 1, 10 ** 9 + 7, 998244353, 65521, 2 ** 64, 255, 257, 10 ** 9]))
small = int(lcm([2 ** 32 - 1, 2 ** 31 - 1, 4]))
pairs = [
    ("the same 32-bit digits", perm(128, 32)),
    ("the same 32-bit digits", perm(256, 32)),
    ("the same 64-bit digits, the outer ones in place", perm(384, 64, True)),
    ("the same 64-bit digits", perm(256, 64)),
    ("the same bytes", perm(64, 8)),
    ("the same bytes, the outer ones in place", perm(256, 8, True)),
    ("all but a word in the middle", shift(256, lambda: rng.getrandbits(64) << 96)),
    ("all but the lowest word", shift(256, lambda: rng.getrandbits(62))),
    ("all but the highest word", shift(256, lambda: rng.getrandbits(61) << 192)),
    ("congruent modulo 2^128", shift(255, lambda: rng.getrandbits(100) << 128)),
    ("congruent modulo 2^32", shift(63, lambda: rng.getrandbits(29) << 32)),
    ("congruent modulo 2^32-1 and 2^31-1", shift(128, lambda: rng.getrandbits(50) * small)),
    ("congruent modulo many", shift(521, lambda: rng.getrandbits(100) * M)),
    ("words with the same sum", shift(256, lambda: (lambda d: (d << 128) - (d << 64))(rng.getrandbits(60)))),
    ("words with the same exclusive or", xorpair(256, 64)),
    ("words with the same exclusive or", xorpair(128, 32)),
    ("the same decimal digits", decimals(60)),
]


# curves over such fields, and over one field with such coefficients
def mulx(f, g, c, p):
    """f*g modulo the cubic x^3+c2 x^2+c1 x+c0"""
    r = [0] * 5
    for i, a in enumerate(f):
        for j, b in enumerate(g):
            r[i + j] = (r[i + j] + a * b) % p
    for k in (4, 3):
        t, r[k] = r[k], 0
        for j in range(3):
            r[k - 3 + j] = (r[k - 3 + j] - t * c[j]) % p
    return r[:3]


def no_root(c, p):
    """the cubic has no root: x^p - x is coprime to it"""
    e, f, x = p, [1, 0, 0], [0, 1, 0]
    while e:
        if e & 1:
            f = mulx(f, x, c, p)
        x = mulx(x, x, c, p)
        e >>= 1
    h = [f[0], (f[1] - 1) % p, f[2]]
    g = [c[0] % p, c[1] % p, c[2] % p, 1]
    while any(h):
        while h and not h[-1]:
            h.pop()
        inv = pow(h[-1], -1, p)
        while len(g) >= len(h):
            t = g[-1] * inv % p
            for j in range(len(h)):
                k = len(g) - len(h) + j
                g[k] = (g[k] - t * h[j]) % p
            g.pop()
        g, h = h, g
        if not h:
            break
    while g and not g[-1]:
        g.pop()
    return len(g) == 1


def square(a, p):
    return pow(a, (p - 1) // 2, p) == 1


def s_for(a, b, ps):
    return next(s for s in range(2, 1000) if all(no_root([-b * s * s, 1, a], p) for p in ps))


def same_w(p, q, k):
    return [(r, 5 + k, 1000003 ** 2 - 8 - 2 * (5 + k), 0, 0, 2, 1000003) for r in (p, q)]


def same_m(p, q, k):
    a = 5 + k
    b = 8 + 4 * a + 2
    return [(r, a, b, 0, s_for(a, b, (p, q)), 2, 1) for r in (p, q)]


def same_e(p, q, k):
    for y in range(3 + k, 1000):
        for d in range(2, 200):
            a = 1 + (d - 1) * y * y
            if all(square(a, r) and not square(d, r) for r in (p, q)):
                return [(r, a, 0, d, 0, 1, y) for r in (p, q)]


P521 = 2 ** 521 - 1


def by_w(u, v):
    p, x, y = P521, 2, 1000003
    return [(p, c, (y * y - x ** 3 - c * x) % p, 0, 0, x, y) for c in (u, v)] + [(p, (y * y - x ** 3 - c) * pow(x, -1, p) % p, c, 0, 0, x, y) for c in (u, v)]


def by_m(u, v):
    p, x, y, out = P521, 2, 1000003, []
    for c in (u, v):
        b = (x ** 3 + c * x * x + x) * pow(y * y, -1, p) % p
        out.append((p, c, b, 0, s_for(c, b, (p,)), x, y))
    for c in (u, v):
        a = (c * y * y - x ** 3 - x) * pow(x * x, -1, p) % p
        out.append((p, a, c, 0, s_for(a, c, (p,)), x, y))
    return out


def by_e(u, v):
    p, out = P521, []
    for c in (u, v):
        for y in range(2, 10000):
            d = (c * 4 + y * y - 1) * pow(4 * y * y, -1, p) % p
            if square(c, p) and not square(d, p):
                out.append((p, c, 0, d, 0, 2, y))
                break
    if len(out) == 1:
        out = []
    for c in (u, v):
        for y in range(2, 10000):
            a = (1 + c * 4 * y * y - y * y) * pow(4, -1, p) % p
            if square(a, p) and not square(c, p):
                out.append((p, a, 0, c, 0, 2, y))
                break
    if len(out) % 2 == 1:
        out.pop()
    return out


def rec(kind, t):
    p, a, b, d, s, x, y = t
    return '[kind |-> "%s", p |-> N("%d"), a |-> N("%d"), b |-> N("%d"), d |-> N("%d"), s |-> N("%d"), r |-> BigR, h |-> One, gx |-> N("%d"), gy |-> N("%d")]' % (kind, p, a, b, d, s, x, y)


values = [q for _, q in pairs]
fams = []
for kind, same, by in (("w", same_w, by_w), ("m", same_m, by_m), ("e", same_e, by_e)):
    fam = []
    for i in (1, 7, 9, 13):
        p, q = values[i]
        a = same(p, q, i)
        fam.append([a[0], a[0], a[1]])
    for i in range(17) if kind == "e" else (1, 3, 6, 7, 8, 13, 14):
        cs = by(*values[i])
        if not cs:
            continue
        fam.append([cs[0]] + cs)
    for f in fam:
        for p, a, b, d, s, x, y in f:
            if kind == "w":
                assert (y * y - x ** 3 - a * x - b) % p == 0
            elif kind == "m":
                assert (b * y * y - x ** 3 - a * x * x - x) % p == 0
            else:
                assert (a * x * x + y * y - 1 - d * x * x * y * y) % p == 0
    fams.append([[rec(kind, t) for t in f] for f in fam])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Lookalikes.tla"), "w") as f:
    f.write("----------------------------- MODULE Lookalikes -----------------------------\n")
    f.write("(***************************************************************************)\n")
    f.write("(* Written by tools/mklookalikes.py: pairs of different primes that agree  *)\n")
    f.write("(* in what a summary of a number may keep of it, curves over such fields,  *)\n")
    f.write("(* and curves over one field with such coefficients.                       *)\n")
    f.write("(***************************************************************************)\n")
    f.write("EXTENDS GenLib\n\nLookalikes(t) == <<\n")
    f.write(",\n".join('  \\* %s\n  <<N("%d"), N("%d")>>' % (t, p, q) for t, (p, q) in pairs))
    f.write("\n>>\n")
    for name, fam in zip(("LookW", "LookM", "LookE"), fams):
        f.write("%s(t) == <<\n%s\n>>\n" % (name, ",\n".join("  <<" + ",\n    ".join(cs) + ">>" for cs in fam)))
    f.write("=============================================================================\n")
