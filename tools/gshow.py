import json,sys
for k in sys.argv[2:]:
    c=json.load(open('/verif/replays/%s/case%s.json'%(sys.argv[1],k)));r=c['case']['rib']
    print("##",c['what'])
    i=r.rfind('Display "+') ; i=r.index("\n",i) if i>=0 else 0
    print(r[i:])
