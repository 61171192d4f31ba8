import sys
p='/verif/run/check.py'; s=open(p).read(); spec,tech=open(sys.argv[1]).read().split('=====\n')
a=s.index('}\n\nCOMMON'); s=s[:a]+spec.rstrip('\n')+'\n'+s[a:]
a=s.index("}\nTECH = {k:"); s=s[:a]+tech.rstrip('\n')+'\n'+s[a:]
open(p,'w').write(s)
