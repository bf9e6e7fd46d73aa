import json,collections,sys
c=collections.Counter(); errs=collections.Counter()
for s in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/w/t.ndjson'):
    e=json.loads(s)
    if e['op']=='tx':
        for m in e['msgs']: c[(m['m'],e['ok'])]+=1
        if not e['ok'] and len(e['msgs'])==1: errs[(e['msgs'][0]['m'],e['err'][:100])]+=1
    elif e['op']=='task': c[('task',e['hook'],e['panic'][:80])]+=1
    else: c[(e['op'],e.get('err','')[:300], e.get('panic','')[:200])]+=1
for k,v in sorted(c.items(),key=str): print(v,k)
print()
for k,v in sorted(errs.items(),key=str): print(v,k)
