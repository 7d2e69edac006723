from mpmath import mp, mpf
mp.prec=1200
import mpmath
worst={}
for l in open('/tmp/st.txt'):
    f,n,d,v=l.split(); x=mpf(int(n))/int(d)
    w={'pi':lambda x:mp.pi+0}.get(f, getattr(mpmath,{'ln':'log'}.get(f,f),None) if f!='pi' else None)(x)
    e=abs(mpf(int(v))/mpf(2)**400-w)
    if f=='exp': e/=max(1,abs(w))
    b=float(mp.log(e,2)) if e else -999
    worst[f]=max(worst.get(f,-9999),b)
print(worst)
