import collections,glob
s=collections.Counter(); m={}
d=collections.defaultdict(set)
for f in glob.glob('/tmp/m?.txt'):
    for l in open(f,errors='replace'):
        w=l.split()
        if l[:2]=='S ' : s[w[1]]+=int(w[2])
        elif l[:2]=='M ': m[w[1]]=max(m.get(w[1],0),int(w[2]))
        elif l[:2]=='D ': d[w[1]].add(w[2])
print(dict(s)); print(m); print({k:len(v) for k,v in d.items()})
