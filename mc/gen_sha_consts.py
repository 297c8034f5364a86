#!/usr/bin/env python3
"""Derives the SHA-512 constants from their definition (FIPS 180-4), so that the
reference hash in ref.h shares no table with the code under test."""
def iroot(k, n):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
primes = []
c = 2
while len(primes) < 80:
    if all(c % p for p in primes): primes.append(c)
    c += 1
M = (1 << 64) - 1
K = [iroot(3, p << 192) & M for p in primes]
H = [iroot(2, p << 128) & M for p in primes[:8]]
def rr(x, n): return ((x >> n) | (x << (64 - n))) & M
def compress(s, blk):
    w = [int.from_bytes(blk[i*8:i*8+8], 'big') for i in range(16)]
    for i in range(16, 80):
        s0 = rr(w[i-15], 1) ^ rr(w[i-15], 8) ^ (w[i-15] >> 7)
        s1 = rr(w[i-2], 19) ^ rr(w[i-2], 61) ^ (w[i-2] >> 6)
        w.append((w[i-16] + s0 + w[i-7] + s1) & M)
    a, b, c, d, e, f, g, h = s
    for i in range(80):
        S1 = rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)
        ch = (e & f) ^ (~e & g & M)
        t1 = (h + S1 + ch + K[i] + w[i]) & M
        S0 = rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)
        mj = (a & b) ^ (a & c) ^ (b & c)
        t2 = (S0 + mj) & M
        h, g, f, e, d, c, b, a = g, f, e, (d + t1) & M, c, b, a, (t1 + t2) & M
    return [(x + y) & M for x, y in zip(s, [a, b, c, d, e, f, g, h])]
# SHA-512/t IV generation function, t = 256
msg = b"SHA-512/256"
pad = msg + b"\x80" + b"\0" * (128 - len(msg) - 1 - 16) + (len(msg) * 8).to_bytes(16, 'big')
H256 = compress([x ^ 0xa5a5a5a5a5a5a5a5 for x in H], pad)
def arr(n, v): return "static const uint64_t %s[%d] = {%s};\n" % (n, len(v), ",".join("0x%016xull" % x for x in v))
print("// generated by gen_sha_consts.py\n#pragma once\n#include <cstdint>\n" + arr("REF_K", K) + arr("REF_H512", H) + arr("REF_H256", H256), end="")
