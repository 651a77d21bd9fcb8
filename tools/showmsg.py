"""replay the failures of the last run of a check and print distinct messages"""
import json,sys,glob,subprocess,re,collections
pid=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 20; pat=sys.argv[3] if len(sys.argv)>3 else ''
jobs={}
for l in open(f'/verif/build/run-{pid}.jobs'):
    a=l.rstrip('\n').split('\t'); jobs[a[0]]=a
seen=collections.OrderedDict()
for f in sorted(glob.glob(f'/verif/build/run-{pid}/*.json')):
    j=json.load(open(f))
    for x in j.get('failures',[]):
        e=jobs[j['id']][1]; c=jobs[j['id']][2].split(',')[x['cfg']]
        seen.setdefault((x['end'],e,c),x['inputs'])
k=0
for (end,e,c),i in seen.items():
    h={'h_parse':'parser','h_tokens':'parser','h_group':'parser','h_lex':'parser','h_trivia':'parser','h_tags':'parser','h_opaque':'parser','h_contain':'parser','h_local':'parser'}.get(e,'ludtwig')
    r=subprocess.run([f'/verif/build/{h}-target/release/replay',e,c,i],capture_output=True,text=True)
    m=r.stdout.split('\n')[0]
    if pat and not re.search(pat,m): continue
    print(end,m[:500],r.stderr[:200]); k+=1
    if k>=n: break
print(len(seen))
