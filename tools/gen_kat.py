#!/usr/bin/env python3
"""Regenerates mon/src/kat.rs: digests of multi-gigabyte messages, computed with OpenSSL (hashlib).

The streamed message is the 1 MiB pattern of rng.rs (seed 0xC07, stream 7) repeated; the SipHash
values come from a byte-exact C transcription of the SipHash reference compiled here.
Run by hand (takes a few minutes); the output is committed.
"""
import hashlib, os, subprocess, tempfile, concurrent.futures as cf

M = (1 << 64) - 1

def splitmix(x):
    x = (x + 0x9e3779b97f4a7c15) & M
    z = x
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
    return x, z ^ (z >> 31)

def rotl(x, n): return ((x << n) | (x >> (64 - n))) & M

def pattern(seed, stream, n):
    s = seed ^ ((0x5bd1e995 * ((stream + 0x1234567) & M)) & M)
    a = []
    for _ in range(4):
        s, p = splitmix(s)
        s, q = splitmix(s)
        a.append(p ^ rotl(q, 17))
    a[0] |= 1
    out = bytearray()
    while len(out) < n:
        r = (rotl((a[1] * 5) & M, 7) * 9) & M
        t = (a[1] << 17) & M
        a[2] ^= a[0]; a[3] ^= a[1]; a[1] ^= a[2]; a[0] ^= a[3]
        a[2] ^= t
        a[3] = rotl(a[3], 45)
        out += r.to_bytes(8, "little")
    return bytes(out[:n])

CHECK = [1 << 16, (1 << 24) + 3, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 29) + 57, (1 << 31) - 1, 1 << 31,
         (1 << 31) + 64, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 183]
BIG = [(1 << 33) + 5, (1 << 34) + 120]
ALGS = [("Sha1", "sha1"), ("Sha256", "sha256"), ("Sha384", "sha384"), ("Sha512", "sha512"),
        ("Sha512_256", "sha512_256"), ("Ripemd160", "ripemd160")]
K0, K1 = 0x0123456789abcdef, 0xfedcba9876543210

SIPC = r"""
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define R(x,b) (((x)<<(b))|((x)>>(64-(b))))
#define SR v0+=v1;v1=R(v1,13);v1^=v0;v0=R(v0,32);v2+=v3;v3=R(v3,16);v3^=v2;v0+=v3;v3=R(v3,21);v3^=v0;v2+=v1;v1=R(v1,17);v1^=v2;v2=R(v2,32);
int main(int c,char**v){ static uint8_t p[1<<20]; if(fread(p,1,1<<20,stdin)!=1<<20)return 1; uint64_t k0=strtoull(v[1],0,16),k1=strtoull(v[2],0,16);
 int zero=atoi(v[3]); if(zero)memset(p,0,sizeof p);
 for(int a=4;a<c;a++){ uint64_t n=strtoull(v[a],0,10),i; uint64_t v0=k0^0x736f6d6570736575ull,v1=k1^0x646f72616e646f6dull,v2=k0^0x6c7967656e657261ull,v3=k1^0x7465646279746573ull,m;
  for(i=0;i+8<=n;i+=8){memcpy(&m,p+(i&0xfffff),8);v3^=m;SR SR v0^=m;}
  m=n<<56; for(int s=0;i<n;i++,s+=8)m|=(uint64_t)p[i&0xfffff]<<s;
  v3^=m;SR SR v0^=m;v2^=0xff;SR SR SR SR v0^=v1^v2^v3; for(int b=0;b<8;b++)printf("%02x",(int)(v0>>(8*b)&255)); puts("");}
}
"""

def stream(alg, checks, buf):
    h = hashlib.new(alg)
    pos, res = 0, []
    n = len(buf)
    mv = memoryview(buf)
    for c in checks:
        while pos < c:
            o = pos % n
            t = min(n - o, c - pos)
            h.update(mv[o:o + t])
            pos += t
        res.append(h.copy().hexdigest())
    return res

def main():
    pat = pattern(0xC07, 7, 1 << 20)
    zeros = bytes(1 << 20)
    assert hashlib.new("ripemd160")
    with cf.ThreadPoolExecutor(8) as ex:
        st = {r: ex.submit(stream, h, CHECK + BIG, pat) for r, h in ALGS}
        zt = {r: ex.submit(stream, h, [(1 << 29) + 9, (1 << 32) + 7], zeros) for r, h in ALGS}
        st = {k: v.result() for k, v in st.items()}
        zt = {k: v.result() for k, v in zt.items()}
    d = tempfile.mkdtemp()
    with open(d + "/s.c", "w") as f: f.write(SIPC)
    subprocess.check_call(["gcc", "-O2", "-o", d + "/s", d + "/s.c"])
    def sip(zero, ns):
        return subprocess.run([d + "/s", "%x" % K0, "%x" % K1, str(zero)] + [str(n) for n in ns], input=pat,
                              stdout=subprocess.PIPE, check=True).stdout.decode().split()
    ss, sz = sip(0, CHECK + BIG), sip(1, [(1 << 32) + 7])
    subprocess.check_call(["rm", "-r", d])
    out = ["//! Generated by tools/gen_kat.py (OpenSSL digests of multi-gigabyte messages). Do not edit.",
           "use crate::refimpl::Alg;",
           "/// Lengths at which the streamed pattern is judged.",
           "pub static CHECK: [u64; %d] = [%s];" % (len(CHECK), ", ".join(map(str, CHECK))),
           "pub static BIG: [u64; %d] = [%s];" % (len(BIG), ", ".join(map(str, BIG))),
           "pub const SIP_KEYS: (u64, u64) = (0x%x, 0x%x);" % (K0, K1),
           "pub static STREAM: [(Alg, [&str; %d]); 6] = [" % (len(CHECK) + len(BIG))]
    for r, _ in ALGS: out.append("    (Alg::%s, [%s])," % (r, ", ".join('"%s"' % x for x in st[r])))
    out.append("];")
    out.append("pub static STREAM_SIP: [&str; %d] = [%s];" % (len(ss), ", ".join('"%s"' % x for x in ss)))
    out.append("/// 2^32 + 7 zero bytes.")
    out.append("pub static ZERO_2_32_7: [(Alg, &str); 6] = [")
    for r, _ in ALGS: out.append('    (Alg::%s, "%s"),' % (r, zt[r][1]))
    out.append("];")
    out.append('pub static ZERO_2_32_7_SIP: &str = "%s";' % sz[0])
    out.append("pub static ZERO_2_29_9_SHA256: [u8; 32] = [%s];" % ", ".join("0x" + zt["Sha256"][0][i:i + 2] for i in range(0, 64, 2)))
    with open(os.path.join(os.path.dirname(__file__), "../mon/src/kat.rs"), "w") as f: f.write("\n".join(out) + "\n")

main()
