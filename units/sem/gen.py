import sys
s=open('/verif/units/sem/sem2.rs').read(); i=s.rindex("}\nfn main")
out=s[:i]
for f in sys.argv[1:]: out+=open('/verif/units/sem/'+f).read()
open('/verif/units/sem/all.rs','w').write(out+s[i:])
