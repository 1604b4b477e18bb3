import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
v=sorted(d['coverage']['verification_conditions'],key=lambda r:-r['wall_s'])
print(d['wall_s'],sum(r['wall_s'] for r in v))
for r in v[:int(sys.argv[2]) if len(sys.argv)>2 else 12]: print(r['vc'],r['wall_s'],r['paths'],r['obligations'])
