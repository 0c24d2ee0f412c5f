#!/usr/bin/env python3
"""Writes spec/Tables.tla: round constants computed from their published definitions
(sines, square and cube roots of primes), never copied from the implementation."""
import math, decimal, os
decimal.getcontext().prec = 60
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def icbrt(x):
    lo,hi=0,1<<((x.bit_length()//3)+2)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**3<=x: lo=m
        else: hi=m-1
    return lo
def sin_abs(i):                      # exact enough: Taylor series with 60 digits
    D=decimal.Decimal; x=D(i)
    pi=D("3.14159265358979323846264338327950288419716939937510582097494")
    x=x%(2*pi); t=x; s=x; k=1
    while abs(t)>D(10)**-55:
        t=-t*x*x/((k+1)*(k+2)); s+=t; k+=2
    return abs(s)
w32=lambda x:"<<%d,%d>>"%(x&0xffff,(x>>16)&0xffff)
w64=lambda x:"<<%d,%d,%d,%d>>"%tuple((x>>(16*i))&0xffff for i in range(4))
def tab(name,xs,w,per):
    xs=[w(x) for x in xs]
    rows=[", ".join(xs[i:i+per]) for i in range(0,len(xs),per)]
    return "%s == <<\n   %s >>\n"%(name,",\n   ".join(rows))
p80=primes(80)
out="------------------------------- MODULE Tables -------------------------------\n"
out+="(* Generated by tools/gen_tables.py from the published definitions. *)\n"
out+="(* MD5: floor(2^32 * |sin i|), i = 1..64 (RFC 1321) *)\n"
out+=tab("MD5T",[int(sin_abs(i)*2**32) for i in range(1,65)],w32,4)
out+="(* SHA-224/256: fractional parts of cube roots of the first 64 primes (FIPS 180-4) *)\n"
out+=tab("SHA256K",[icbrt(p<<96)&0xffffffff for p in p80[:64]],w32,4)
out+="(* SHA-384/512: the same, first 80 primes, 64 bits *)\n"
out+=tab("SHA512K",[icbrt(p<<192)&(2**64-1) for p in p80],w64,2)
s=lambda p,b: math.isqrt(p<<(2*b))&((1<<b)-1)
out+="(* initial values: square roots of primes *)\n"
out+=tab("SHA256IV",[s(p,32) for p in p80[:8]],w32,4)
out+=tab("SHA224IV",[s(p,64)&0xffffffff for p in p80[8:16]],w32,4)
out+=tab("SHA512IV",[s(p,64) for p in p80[:8]],w64,2)
out+=tab("SHA384IV",[s(p,64) for p in p80[8:16]],w64,2)
out+="(* sqrt(2), sqrt(3), sqrt(5), sqrt(10)/4 in 30 fractional bits (SHA-1) and sqrt, cube roots (RIPEMD) *)\n"
r=lambda n:math.isqrt(n<<60)
out+=tab("SQRT30",[math.isqrt(n<<60) for n in (2,3,5,7)],w32,4)
out+=tab("SHA1K",[math.isqrt(n<<60) for n in (2,3,5,10)],w32,4)
out+=tab("CBRT30",[icbrt(n<<90) for n in (2,3,5,7)],w32,4)
out+="=============================================================================\n"
import sys
sys.stdout.write(out)
