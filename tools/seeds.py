# rebuild tools/seeds.json: needs from seeded/*/meta.json, result kept (or "caught" by default argument)
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); S=H+'/../seeded'
old=json.load(open(H+'/seeds.json')) if os.path.exists(H+'/seeds.json') else {}
miss=dict(a.split('=',1) for a in sys.argv[1:])
out={}
for n in sorted(os.listdir(S)):
    m=json.load(open(S+'/'+n+'/meta.json'))
    r=miss.get(n) or old.get(n,{}).get('result') or 'caught by '+m['property']
    out[n]={'needs':m['needs'],'result':r}
json.dump(out,open(H+'/seeds.json','w'),indent=1)
