import re,collections,json,sys
t=open(sys.argv[1]).read(); n=int(sys.argv[2]) if len(sys.argv)>2 else 6
cs=collections.Counter(); ex={}
for m in re.finditer(r'VIOLATION property=\S+ replay=\S+\n  (.*?)\n  case: (\{.*?\})\n(?=VIOL|[A-Z]|note|KNOWN)',t,re.S):
    case=json.loads(m.group(2))
    k=(m.group(1)[:45].split('"')[0],case['cfg'])
    cs[k]+=1
    ex.setdefault(k,[])
    if len(ex[k])<n: ex[k].append((case['src'],case.get('range'),m.group(1).replace("\n"," | ")))
for k,v in cs.most_common(25):
    print(v,k)
    for e in ex[k]: print('    ',*e)
print(t.strip().split("\n")[-1])
