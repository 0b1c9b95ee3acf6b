import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/nd/o.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
st=b.get('stable') or b.get('tests') or b.get('passed') or b.get('stable_pass')
p=set(o.get('passed') or o.get('pass'))
print('MISSING',[t for t in st if t not in p])
