"""units/sem.vrs: the languages and their lemmas, to be included in the units that need them"""
import os
d=os.path.dirname(os.path.abspath(__file__))
s=open(d+'/sem2.rs').read(); i=s.index("verus! {")+len("verus! {"); j=s.rindex("}\nfn main")
out=s[i:j]
for f in ['lem.rs','rel.rs','alg.rs','leaf.rs']: out+=open(d+'/'+f).read()
open(d+'/../sem.vrs','w').write(out.lstrip('\n'))
# units/deriv_sem.vrs: the lemmas about derivatives
out=''
for f in ['sd.rs','td.rs','ad.rs']: out+=open(d+'/'+f).read()
open(d+'/../deriv_sem.vrs','w').write(out)
