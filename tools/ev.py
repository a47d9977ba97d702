import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
for c in e['cases']: print(c['case'],c['paths'],c['wall_s'],c['asserts'],c['complete_within_bounds'],c['ends'])
