# any 9 consecutive bytes of the source formula determine their position (below N)
def src(i):
    x=(i%40009*3571+11)%40009
    y=(x*x)%40009
    return ((x*y)%65521//16 + (i//40009)*17)%256
N=1200000
s=bytes(src(i) for i in range(N))
for W in (9,6,4):
    seen=set(s[i:i+W] for i in range(N-W)); print("window",W,"dups",N-W-len(seen))
