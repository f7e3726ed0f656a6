#!/usr/bin/env python3
"""addprop.py CNN [w] [native=name:ms[:mode],...] [timeout=N] — register a property module."""
import json, sys
pid = sys.argv[1]; f = pid.lower()
dep = '["w"]' if 'w' in sys.argv[2:] else '[]'
p='/verif/kani/Cargo.toml'; s=open(p).read()
if f'\n{f} =' not in s:
    s=s.replace('\n[lints.rust]', f'{f} = {dep}\n\n[lints.rust]'); open(p,'w').write(s.replace('\n\n\n','\n\n'))
p='/verif/kani/src/lib.rs'; s=open(p).read()
if f'"{f}" {f},' not in s:
    s=s.replace('"c22" c22,', f'"c22" c22, "{f}" {f},'); open(p,'w').write(s)
p='/verif/props.json'; d=json.load(open(p)); c=d.setdefault(pid,{"timeout":120})
for a in sys.argv[2:]:
    if a.startswith('native='):
        c['native']=[]
        for x in a[7:].split(','):
            y=x.split(':'); e={"harness":f"{f}::{y[0]}","ms":int(y[1]) if len(y)>1 else 10000}
            if len(y)>2: e['mode']=y[2]
            c['native'].append(e)
    if a.startswith('timeout='): c['timeout']=int(a[8:])
json.dump(d,open(p,'w'),indent=1)
