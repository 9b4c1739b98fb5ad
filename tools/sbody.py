"""sbody.py PROP k..: the statements of a replay's shader"""
import json,sys
for k in sys.argv[2:]:
    c=json.load(open('/verif/replays/%s/case%s.json'%(sys.argv[1],k))); s=list(c['case']['sl'].values())[0]
    b=s[s.index('surface'):].split('\n')
    print("==",c.get('what',''), '\n'.join(l[:330] for l in b[2:] if 'aov' not in l and 'k[' not in l[:3] and not any(l.startswith('\t'+x) for x in('varying','uniform'))))
