import json,sys
p='/verif/tools/techniques.json'; t=json.load(open(p)); t[sys.argv[1]]=dict(technique=sys.argv[2],note=sys.argv[3]); json.dump(t,open(p,'w'),indent=1)
