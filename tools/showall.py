"""all failing templates of the last run, with one example each"""
import json,sys,glob,collections
pid=sys.argv[1]
jobs={}
for l in open(f'/verif/build/run-{pid}.jobs'):
    a=l.rstrip('\n').split('\t'); jobs[a[0]]=a
seen=collections.OrderedDict()
for f in sorted(glob.glob(f'/verif/build/run-{pid}/*.json')):
    j=json.load(open(f))
    for x in j.get('failures',[]):
        c=jobs[j['id']][2].split(',')[x['cfg']]; b=bytes.fromhex(c)
        seen.setdefault((x['end'],jobs[j['id']][1],b),[]).append(bytes.fromhex(x['inputs']))
for (e,h,b),v in list(seen.items())[:int(sys.argv[2]) if len(sys.argv)>2 else 40]:
    print(e,h,len(v),b[-70:],v[:4])
print(len(seen))
