#!/opt/veriftools/pyvenv/bin/python
"""Derives the reference filters from their documented specification, with no
input from the coefficient tables of the library.

FIR: half-band sinc times an ultraspherical window (mu = 0.75); number of
     coefficients and attenuation per stage are those of filter-design/mkfir.sh.
IIR: elliptic half-band filter as two all-pass paths (filter-design/mkiir.cc):
     passband up to 18 kHz for 44.1 kHz, smallest number of coefficients that
     reaches 6 dB per bit; coefficients from Jacobi's sn.

Usage: design.py > ../harness/ref_tables.h     (committed; takes about a minute)
"""
import mpmath as mp
mp.mp.dps = 40

FIR_SPEC = {  # (stage, bits): (n, attenuation)
    (2, 24): (52, 138), (4, 24): (16, 136), (8, 24): (12, 136),
    (2, 20): (42, '113.75'), (4, 20): (14, '113.75'), (8, 20): (10, '113.75'),
    (2, 16): (32, '88.5'), (4, 16): (10, '86.5'), (8, 16): (8, '88.5'),
    (2, 12): (24, '67.5'), (4, 12): (8, '67.5'), (8, 12): (6, '67.5'),
    (2, 8): (16, 48), (4, 8): (6, 46), (8, 8): (4, 42)}
MU = mp.mpf('0.75')

def geg(n, mu, x):
    a, b = mp.mpf(1), 2 * mu * x
    if n == 0:
        return a
    for k in range(2, n + 1):
        a, b = b, (2 * x * (k + mu - 1) * b - (k + 2 * mu - 2) * a) / k
    return b

def design_fir(n, latt):
    N = 2 * n
    M = N + 1
    g = lambda x: geg(N - 1, MU + 1, x)
    step = mp.pi / N / 20
    x = step
    s0 = mp.sign(g(x))
    while mp.sign(g(x + step)) == s0:
        x += step
    lo, hi = x, x + step
    for _ in range(140):
        m = (lo + hi) / 2
        if mp.sign(g(m)) == s0: lo = m
        else: hi = m
    ref = abs(geg(N, MU, lo))
    r = mp.mpf(10) ** (mp.mpf(latt) / 20)
    lo, hi = mp.mpf(1), mp.mpf(2)
    for _ in range(140):
        m = (lo + hi) / 2
        if geg(N, MU, m) / ref < r: lo = m
        else: hi = m
    x = lo
    W = [geg(N, MU, x * mp.cos(mp.pi * k / M)) for k in range(n + 1)]
    w = [W[0] + 2 * sum(W[k] * mp.cos(2 * mp.pi * k * m / M) for k in range(1, n + 1)) for m in range(n + 1)]
    return [mp.sin(mp.pi * k / 2) / (mp.pi * k / 2) * w[abs(k)] / w[0] / 2 for k in range(-n + 1, n, 2)]

def iir_param(stage):
    rate = mp.mpf(44100) * stage / 2
    tbw = (rate / 2 - 18000) / rate
    k = mp.tan((1 - 2 * tbw) * mp.pi / 4) ** 2
    K = mp.ellipk(k * k)
    q = mp.exp(-mp.pi * mp.ellipk(1 - k * k) / K)
    return k, K, q

def atten(q, n):
    qn = q ** (2 * n + 1)
    k1 = 4 * mp.sqrt(qn) * mp.nprod(lambda j: ((1 + qn ** (2 * j)) / (1 + qn ** (2 * j - 1))) ** 4, [1, 20])
    return 10 * mp.log10(1 + 1 / k1)

def design_iir(stage, bits):
    k, K, q = iir_param(stage)
    n = 1
    while atten(q, n) < 6 * bits:
        n += 1
    c = []
    for i in range(1, n + 1):
        w = mp.sqrt(k) * mp.ellipfun('sn', 2 * i * K / (2 * n + 1), m=k * k)
        x = mp.sqrt((1 - w * w * k) * (1 - w * w / k)) / (1 + w * w)
        c.append(mp.re((1 - x) / (1 + x)))
    f = mp.mpf(1000) / (44100 * stage)
    gd = sum(2 * (1 - a * a) / (a * a + 2 * a * mp.cos(4 * mp.pi * f) + 1) for a in c[0::2])
    return c, gd, atten(q, n)

if __name__ == '__main__':
    print('// generated by tools/design.py: do not edit')
    print('#pragma once')
    print('struct RefFir { int stage, bits, n; double c[52]; };')
    print('struct RefIir { int stage, bits, n; double group_delay, atten; double c[9]; };')
    print('static const RefFir ref_fir[] = {')
    for (stage, bits), (n, latt) in sorted(FIR_SPEC.items()):
        c = design_fir(n, latt)
        print('  { %d, %d, %d, { %s } },' % (stage, bits, n, ', '.join('%.17g' % float(x) for x in c)))
    for stage in 2, 4, 8:
        print('  { %d, 1, 2, { 0.25, 0.25 } },' % stage)
    print('};')
    print('static const RefIir ref_iir[] = {')
    for bits in 8, 12, 16, 20, 24:
        for stage in 2, 4, 8:
            c, gd, att = design_iir(stage, bits)
            print('  { %d, %d, %d, %.12g, %.8g, { %s } },' % (stage, bits, len(c), float(gd), float(att), ', '.join('%.17g' % float(x) for x in c)))
    print('};')
