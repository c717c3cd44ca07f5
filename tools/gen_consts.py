#!/usr/bin/env python3
"""Derives the SHA-1/SHA-2/RIPEMD-160 constants of the reference model from first principles
(integer roots of primes, FIPS 180-4 5.3.6 IV generation) and writes mon/src/consts.rs.
Nothing is copied from the code under test."""
import os, hashlib

def primes(n):
    out, c = [], 2
    while len(out) < n:
        if all(c % p for p in out): out.append(c)
        c += 1
    return out

def iroot(k, n):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= n: lo = mid
        else: hi = mid - 1
    return lo

def frac_root(k, p, bits):
    return iroot(k, p << (k * bits)) & ((1 << bits) - 1)

P = primes(80)
K256 = [frac_root(3, p, 32) for p in P[:64]]
K512 = [frac_root(3, p, 64) for p in P]
IV256 = [frac_root(2, p, 32) for p in P[:8]]
IV512 = [frac_root(2, p, 64) for p in P[:8]]
IV384 = [frac_root(2, p, 64) for p in P[8:16]]

M = (1 << 64) - 1
def sha512_compress(h, block):
    rr = lambda x, n: ((x >> n) | (x << (64 - n))) & M
    w = [int.from_bytes(block[i*8:i*8+8], 'big') for i in range(16)]
    for i in range(16, 80):
        s0 = rr(w[i-15], 1) ^ rr(w[i-15], 8) ^ (w[i-15] >> 7)
        s1 = rr(w[i-2], 19) ^ rr(w[i-2], 61) ^ (w[i-2] >> 6)
        w.append((w[i-16] + s0 + w[i-7] + s1) & M)
    a, b, c, d, e, f, g, hh = h
    for i in range(80):
        t1 = (hh + (rr(e,14)^rr(e,18)^rr(e,41)) + ((e & f) ^ (~e & g)) + K512[i] + w[i]) & M
        t2 = ((rr(a,28)^rr(a,34)^rr(a,39)) + ((a&b)^(a&c)^(b&c))) & M
        a, b, c, d, e, f, g, hh = (t1+t2)&M, a, b, c, (d+t1)&M, e, f, g
    return [(x+y)&M for x, y in zip(h, [a,b,c,d,e,f,g,hh])]

def pad512(m):
    z = (-(len(m) + 17)) % 128
    return m + b'\x80' + b'\0'*z + (8*len(m)).to_bytes(16, 'big')

# sanity of this generator
def sha512(m, iv):
    h = iv
    p = pad512(m)
    for i in range(0, len(p), 128): h = sha512_compress(h, p[i:i+128])
    return b''.join(x.to_bytes(8,'big') for x in h)
assert sha512(b'abc', IV512) == hashlib.sha512(b'abc').digest()
assert sha512(b'abc', IV384)[:48] == hashlib.sha384(b'abc').digest()
# FIPS 180-4 5.3.6: IV of SHA-512/t
gen = [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512]
d = sha512(b'SHA-512/256', gen)
IV512_256 = [int.from_bytes(d[i*8:i*8+8], 'big') for i in range(8)]
assert sha512(b'abc', IV512_256)[:32] == hashlib.new('sha512_256', b'abc').digest()

# RIPEMD-160: message word selection from rho and pi, constants from roots
rho = [7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8]
pi = [(9*i+5) % 16 for i in range(16)]
ident = list(range(16))
RL = []
RR = []
cur = ident
for r in range(5):
    RL += cur
    cur = [rho[i] for i in cur]
cur = pi
for r in range(5):
    RR += cur
    cur = [rho[i] for i in cur]
SH = [[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8],
      [12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7],
      [13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9],
      [14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6],
      [15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5]]  # rotate amount of word j in round r
SL = [SH[r][RL[16*r+i]] for r in range(5) for i in range(16)]
SR = [SH[r][RR[16*r+i]] for r in range(5) for i in range(16)]
def introot30(k, p): return iroot(k, p << (30*k))
KL = [0] + [introot30(2, p) for p in (2,3,5,7)]
KR = [introot30(3, p) for p in (2,3,5,7)] + [0]
K1 = [introot30(2, p) for p in (2,3,5,10)]

def arr(name, ty, v, w):
    s = f"pub const {name}: [{ty}; {len(v)}] = [\n"
    for i in range(0, len(v), 4 if w == 16 else 8):
        s += "    " + " ".join((f"0x{x:0{w}x}," if w else f"{x},") for x in v[i:i+(4 if w == 16 else 8)]) + "\n"
    return s + "];\n"
out = "// Generated by tools/gen_consts.py from first principles. Do not edit.\n#![cfg_attr(rustfmt, rustfmt_skip)]\n"
for n, t, v, w in [("K256","u32",K256,8),("K512","u64",K512,16),("IV256","u32",IV256,8),("IV512","u64",IV512,16),
                   ("IV384","u64",IV384,16),("IV512_256","u64",IV512_256,16),("RL","usize",RL,0),("RR","usize",RR,0),
                   ("SL","u32",SL,0),("SR","u32",SR,0),("KL","u32",KL,8),("KR","u32",KR,8),("K1","u32",K1,8)]:
    out += arr(n, t, v, w)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mon/src/consts.rs"), "w").write(out)
