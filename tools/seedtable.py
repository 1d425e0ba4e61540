#!/usr/bin/env python3
"""Rewrites section 8 of DESIGN.md from the planted changes in seeded/ (documentation only; no check reads seeded/)."""
import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p='/verif/DESIGN.md'; s=open(p).read()
a=s.index('<!-- planted -->'); b=s.index('<!-- /planted -->')
s=s[:a]+'<!-- planted -->\n| change | caught by | what it breaks | what it takes to show |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n'+s[b:]
open(p,'w').write(s)
