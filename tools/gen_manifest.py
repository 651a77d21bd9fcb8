"""writes MANIFEST.json from specs.SPECS, the properties and the notes below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import specs
NA = {
    'C33': 'The property quantifies over thread schedules of rayon-style worker threads, channels and the operating system scheduler; the executor of this framework runs one thread of LLVM IR and has no model of OS threads, futexes and blocking channels, so the code it depends on cannot be encoded within reach. The sequential part (what is done with the results) is decided under C25 and C28.',
    'C34': 'File selection is done by the ignore/walkdir crates through the C library and system calls (openat, getdents, stat, inotify); these are foreign calls without IR, and a model of them would be a model of the directory tree and of ignore files rather than the real code. That a file handed over is written only with --fix and only if it changed is decided under C46.',
}
LEVEL = 'Bounded: every path of the compiled code over the stated symbolic inputs is decided (branch conditions and assertions over symbolic bytes: Z3, or truth tables of one byte that Z3 certifies); a violation is replayed on a native build before it is reported. Trusts rustc\'s LLVM IR, the executor and its stubs (allocator, intrinsics), and the harness oracle; see DESIGN.md.'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'cfg(ludtwig_verif)', 'enable': 'RUSTFLAGS="--cfg ludtwig_verif" (tools/build.py sets it for the harness crates, which depend on /repo by path)', 'source_commits': ['44c4edf']},
    'checks': [], 'not_applicable': [],
}
for p in props:
    i = p['id']
    if i in specs.SPECS:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': 'bounded symbolic execution of the compiled (LLVM IR) code with Z3', 'level': 'model_checking', 'level_note': specs.NOTES.get(i, '') + LEVEL})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print([c['property'] for c in m['checks']], [c['property'] for c in m['not_applicable']])
