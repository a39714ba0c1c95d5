import sys,re
src,dst=sys.argv[1:3]; drop=set(sys.argv[3:])
t=open(src).read()
parts=t.split("[[package]]\n")
out=[parts[0]]
for p in parts[1:]:
    n=re.match(r'name = "([^"]+)"',p).group(1)
    if n in drop: continue
    out.append(p)
open(dst,"w").write("[[package]]\n".join(out))
