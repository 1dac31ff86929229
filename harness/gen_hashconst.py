#!/usr/bin/env python3
"""Writes spec/HashConst.tla from the mathematical definitions of the constants (not from the code under test)."""
import os, sys
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r if p*p<=k): r.append(k)
        k+=1
    return r
def iroot(n,k):
    lo,hi=0,1<<(n.bit_length()//k+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**k<=n: lo=m
        else: hi=m-1
    return lo
def frac_root(p,k,bits): return iroot(p<<(k*bits),k)&((1<<bits)-1)
def w(x,bits): return "<<"+", ".join(str((x>>s)&0xFFFF) for s in range(bits-16,-1,-16))+">>"
def ws(xs,bits): return "<<\n"+",\n".join("    "+w(x,bits) for x in xs)+" >>"
def seq(xs): return "<<"+", ".join(map(str,xs))+">>"
P=primes(80)
out=["------------------------------ MODULE HashConst ------------------------------",
"(* Generated by harness/gen_hashconst.py: square and cube roots of primes (FIPS 180-4), the Keccak LFSR and rho",
"   walk (FIPS 202), and the RIPEMD-160 permutations.  Words are sequences of 16-bit limbs, see Words.tla. *)",""]
out.append("SHA256_H == "+ws([frac_root(p,2,32) for p in P[:8]],32))
out.append("SHA256_K == "+ws([frac_root(p,3,32) for p in P[:64]],32))
out.append("SHA512_H == "+ws([frac_root(p,2,64) for p in P[:8]],64))
out.append("SHA512_K == "+ws([frac_root(p,3,64) for p in P[:80]],64))
# RIPEMD-160
rho=[7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8]
pi=[(9*i+5)%16 for i in range(16)]
def compose(f,g): return [f[g[i]] for i in range(16)]
ident=list(range(16))
L=[ident]; 
for _ in range(4): L.append([rho[x] for x in L[-1]])
R=[pi]
for _ in range(4): R.append([rho[x] for x in R[-1]])
rl=[x for r in L for x in r]; rr=[x for r in R for x in r]
S=[[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8],
   [12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7],
   [13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9],
   [14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6],
   [15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5]]
sl=[S[i//16][rl[i]] for i in range(80)]; sr=[S[i//16][rr[i]] for i in range(80)]
out.append("RMD_RL == "+seq(rl)); out.append("RMD_RR == "+seq(rr)); out.append("RMD_SL == "+seq(sl)); out.append("RMD_SR == "+seq(sr))
kl=[0]+[iroot(p<<60,2)&0xFFFFFFFF for p in (2,3,5,7)]
kr=[iroot(p<<90,3)&0xFFFFFFFF for p in (2,3,5,7)]+[0]
out.append("RMD_KL == "+ws(kl,32)); out.append("RMD_KR == "+ws(kr,32))
out.append("RMD_H == "+ws([0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0],32))
# Keccak
def rc_bit(t):
    if t%255==0: return 1
    R=0x80   # bits r0..r7, r0 first
    R=[1,0,0,0,0,0,0,0]
    for _ in range(t%255):
        R=[0]+R
        R[0]^=R[8]; R[4]^=R[8]; R[5]^=R[8]; R[6]^=R[8]
        R=R[:8]
    return R[0]
rcs=[sum(rc_bit(j+7*i)<<((1<<j)-1) for j in range(7)) for i in range(24)]
out.append("KECCAK_RC == "+ws(rcs,64))
rot={(0,0):0}; x,y=1,0
for t in range(24):
    rot[(x,y)]=((t+1)*(t+2)//2)%64
    x,y=y,(2*x+3*y)%5
out.append("\\* Lane (x, y) is element 5*y + x + 1")
out.append("KECCAK_ROT == "+seq([rot[(x,y)] for y in range(5) for x in range(5)]))
out.append("=============================================================================")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","spec","HashConst.tla"),"w").write("\n".join(out)+"\n")
