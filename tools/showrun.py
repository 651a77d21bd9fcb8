"""show failing inputs of the last run of a check: the configuration with the inputs filled in"""
import json,sys,glob,collections
pid=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 6
jobs={}
for l in open(f'/verif/build/run-{pid}.jobs'):
    a=l.rstrip('\n').split('\t'); jobs[a[0]]=a
seen=collections.Counter()
for f in sorted(glob.glob(f'/verif/build/run-{pid}/*.json')):
    j=json.load(open(f))
    for x in j.get('failures',[]):
        if seen[x['end']]>=n: continue
        seen[x['end']]+=1
        c=jobs[j['id']][2].split(',')[x['cfg']]; b=bytes.fromhex(c)
        print(x['end'], jobs[j['id']][1], 'opts',list(b[1:1+b[0]]), b[-90:], 'inputs', bytes.fromhex(x['inputs']))
print(seen)
