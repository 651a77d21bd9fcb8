"""development aid: run the concrete corpus natively through the parser entries"""
import sys,subprocess; sys.path.insert(0,'/verif/tools')
import corpus
R='/verif/build/parser-target/release/replay'
def c(opts,t): return (bytes([len(opts)])+bytes(opts)+b'\0'+b'\0'+t.encode()+b'\x0f').hex()
def run(e,o,t,want='OK'):
    o_=subprocess.run([R,e,c(o,t)],capture_output=True,text=True)
    if want not in o_.stdout: print(e,o,repr(t),o_.stdout[-200:],o_.stderr[-100:])
for v in corpus.VALID: run('h_parse',[36],v)
for v in corpus.VALID+corpus.BROKEN:
    for k in (1,3,6,7,8): run('h_parse',[k],v)
    run('h_lex',[1],v)
for m in corpus.MARKED:
    m=corpus.marks(m); n=m.count('\x01')+m.count('\x02')
    for g in range(n): run('h_trivia',[g],m)
