import os,re,sys,collections
INC=re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]',re.M)
MISS=re.compile(r"^(takatori|yugawara|mizugaki|sharksfin|limestone|shirakami|data-relay-grpc|data_relay_grpc|data_relay|altimeter|arrow|parquet|linenoise|tracy|likwid)([/._-]|$)|^decimal\.hh$|^tateyama/(?!proto/kvs/)")
repo='/repo'
cache={}
def scan(p):
    if p not in cache: cache[p]=INC.findall(open(p,errors='replace').read())
    return cache[p]
def res(path,h):
    for base in (os.path.dirname(path),repo+"/include",repo+"/src",repo+"/mock",repo+"/test"):
        q=os.path.normpath(os.path.join(base,h))
        if os.path.isfile(q): return q
def clos(p):
    seen={p};st=[p];m=set()
    while st:
        c=st.pop()
        for h in scan(c):
            q=res(c,h)
            if q is None:
                if MISS.search(h): m.add(h)
            elif q not in seen: seen.add(q);st.append(q)
    return m
if __name__=='__main__':
    out=[]
    for d,_,ns in os.walk(repo+'/src/jogasaki'):
        for n in ns:
            if n.endswith('.cpp'):
                p=d+'/'+n; m=clos(p)
                libs=collections.Counter(x.split('/')[0] for x in m)
                out.append((len(m),p[len(repo)+14:],dict(libs)))
    out.sort()
    for o in out: print(*o)
