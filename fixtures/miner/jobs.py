import random
R=random.Random(20240327)
Q=0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
def target(bits): 
    e=bits>>24; m=bits&0xffffff
    return m<<(8*(e-3)) if e>=3 else m>>(8*(3-e))
def compact(t):
    n=(t.bit_length()+7)//8
    m=t>>(8*(n-3)) if n>3 else t<<(8*(3-n))
    if m&0x800000: m>>=8; n+=1
    return n<<24|m
T0=target(0x1d00ffff)
def h64(x): return "%064x"%x
def rnd(bits): return R.getrandbits(bits)
def job(name,prev,time,bits,lo=0,hi=None):
    print(name, prev if prev=="CHAIN" else h64(prev), h64(rnd(256)), time, "%08x"%bits, h64(lo), h64(hi if hi is not None else target(bits)))
# ---- chain A: ctr 2010.. ; boundary at idx 6
zt=[1300000000-6600+600*i for i in range(11)]
hist=list(zt)
deltas=[600,-1500,1200,3,2400,-2300,900,1,-900,1800,600,-2000,5000,-4000,600,700]
prev=rnd(220); bits=0x1d00ffff
times=[]
for i,d in enumerate(deltas):
    med=sorted(hist[-11:])[5]
    t=max(hist[-1]+d, med+1)
    if i==6:
        span=900000
        bits=compact(T0*span//1209600)
    job("A%02d"%i, prev if i==0 else "CHAIN", t, bits)
    hist.append(t); times.append(t)
def S(name,time,bits,prev=None,lo=0,hi=None): job(name, prev if prev is not None else rnd(222), time, bits, lo, hi)
S("S_t1",0x01020304,0x1d00ffff)
S("S_t2",0xFEDCBA98,0x1d00ffff)
S("S_t3",0x00FF00FF,0x1d00ffff)
S("S_t4",0x50000001,0x1d00ffff,prev=rnd(253))
S("S_neg",1400000000,0x1c80ffff)
S("S_ovf",1400000000,0x2d00ffff,hi=T0)
S("S_alias",1400000000,0x1d00ffff,prev=rnd(220)+Q)
S("S_b1",1400000001,0x1d00fffe)
S("S_b2",1400000002,0x1d00bfff)
S("S_b3",1400000003,0x1d008000)
S("S_b4",1400000004,0x1d00aaaa)
S("S_b5",1400000005,0x1e0000ff)
S("S_b6",1400000006,0x1e0000c0)
S("S_b7",1400000007,0x1c7fff80)
S("S_b8",1400000008,0x1c7fffff)
S("S_b9",1400000009,0x1c5a3b7d)
S("S_nm1",1400000010,0x1c7fff80,lo=target(0x1c7fff80),hi=T0)
S("S_nm2",1400000011,0x1d00bfff,lo=target(0x1d00bfff),hi=T0)
S("S_nm3",1400000012,0x1c3fffc0,lo=target(0x1c3fffc0),hi=T0)
S("S_b10",1400000013,0x1c3fffc0)
S("S_b11",1400000014,0x1d00c0de)
S("S_b12",1400000015,0x1c2b4c6d)
S("S_nm4",1400000016,0x1d00e000,lo=target(0x1d00e000),hi=T0)
S("S_nh1",1400000017,0x1d00ffff,lo=target(0x1d00e000),hi=T0)
