import json,sys
p='/verif/tools/claims.json'; d=json.load(open(p))
note="Randomised exploration with fixed seeds; trusts the harness's own ZIP/XML reader and its model of the documented behaviour."
d[sys.argv[1]]={"technique":sys.argv[2],"note":note}
d=dict(sorted(d.items()))
json.dump(d,open(p,'w'),indent=1)
