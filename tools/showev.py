import json,sys
for p in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{p}.json'))
    print(p,d['wall_s'],d['coverage']['obligations'],d['coverage']['discharged'])
    for h in d['coverage']['proof_harnesses']+d['coverage']['bounded_harnesses']: print('  ',h['harness'],h['kind'],h['verdict'],h['obligations'],h['seconds'],h.get('result',''),h['unreached'],h.get('fallback',''))
