#!/usr/bin/env python3
"""Build the IR module and the native replay binary of a harness crate from /repo's working tree."""
import os, re, signal, subprocess, sys, hashlib, shutil, glob, time, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET_DIR', 'RUSTC_WRAPPER'): ENV.pop(k, None)

def sh(cmd, cwd=None, env=None, log=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors='replace')[-6000:])
        raise SystemExit(2)
    return r.stdout.decode(errors='replace')

def llvm(tool):
    root = subprocess.run(['rustc', '--print', 'sysroot'], env=ENV, stdout=subprocess.PIPE).stdout.decode().strip()
    return os.path.join(root, 'lib/rustlib/x86_64-unknown-linux-gnu/bin', tool)

def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s: return
    open(p, 'w').write(s)

def link(dst, src):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.islink(dst) and os.readlink(dst) == src: return
    if os.path.lexists(dst): os.unlink(dst)
    os.symlink(src, dst)

def pkg_version():
    for l in open(REPO + '/crates/ludtwig/Cargo.toml'):
        if l.startswith('version'): return l.split('"')[1]

def ludtwig_deps():
    """the dependencies of crates/ludtwig as the repository declares them, without the allocator"""
    t = open(REPO + '/crates/ludtwig/Cargo.toml').read()
    t = t[t.index('[dependencies]') + len('[dependencies]'):]
    t = re.split(r'^\[', t, flags=re.M)[0]
    return '\n'.join(l for l in t.splitlines() if l.strip() and not l.startswith(('mimalloc', 'ludtwig-parser'))) + '\n'
def ludtwig_root():
    """main.rs of the binary as a library root, without the global allocator, with the harness module appended"""
    t = open(REPO + '/crates/ludtwig/src/main.rs').read()
    t = re.sub(r'#\[global_allocator\]\s*static [^;]*;', '', t)
    return t + '\npub mod verif_harness;\n'
def workspace(h, kind):
    """create the generated cargo workspace of harness h (parser|ludtwig), kind ir|native"""
    d = f'{BUILD}/{h}-{kind}'
    native = kind == 'native'
    name = {'parser': 'hp', 'ludtwig': 'hl'}[h]
    man = f'[package]\nname = "{name}"\nversion = "{pkg_version()}"\nedition = "2024"\n\n[workspace]\n\n[lib]\npath = "src/lib.rs"\ncrate-type = ["{"rlib" if native else "staticlib"}"]\n'
    man += f'[features]\ndefault = [{chr(34)+"native"+chr(34) if native else ""}]\nnative = []\n'
    if native: man += f'[[bin]]\nname = "replay"\npath = "src/main.rs"\n'
    man += f'\n[dependencies]\nludtwig-parser = {{ path = "{REPO}/crates/ludtwig-parser" }}\n' + ('rowan = "*"\n' if h == 'parser' else '') + (ludtwig_deps() if h == 'ludtwig' else '')
    if not native: man += f'\n[patch.crates-io]\nrowan = {{ path = "{VERIF}/third_party/rowan" }}\n'
    # one profile for both so that the dependencies are compiled once (objects with embedded bitcode)
    man += '\n[profile.release]\nopt-level = 1\npanic = "abort"\nlto = false\ncodegen-units = 1\ndebug = 0\nincremental = false\nstrip = false\n'
    man += f'[profile.release.package.ludtwig-parser]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\n[profile.release.package.rowan]\nopt-level = 2\n'
    man += f'[profile.release.package.{name}]\nopt-level = {1 if native else 2}\ndebug-assertions = true\noverflow-checks = true\n'
    if h == 'ludtwig':
        for x in ('clap', 'clap_builder', 'clap_lex', 'ignore', 'rayon', 'rayon-core', 'globset', 'walkdir', 'toml_edit', 'toml', 'figment', 'winnow'): man += f'[profile.release.package.{x}]\nopt-level = 0\n'
    man += '[profile.release.build-override]\nopt-level = 0\n'
    write(f'{d}/Cargo.toml', man)
    if not os.path.exists(f'{d}/Cargo.lock'): shutil.copy(REPO + '/Cargo.lock', f'{d}/Cargo.lock')
    if h == 'parser':
        for f in os.listdir(f'{VERIF}/harness/parser'): link(f'{d}/src/{f}', f'{VERIF}/harness/parser/{f}')
        link(f'{d}/src/rt.rs', f'{VERIF}/harness/common/rt.rs')
    else:
        src = f'{REPO}/crates/ludtwig/src'
        have = set()
        for f in os.listdir(src):
            if f == 'main.rs': continue
            link(f'{d}/src/{f}', f'{src}/{f}'); have.add(f)
        for f in os.listdir(f'{VERIF}/harness/ludtwig'): link(f'{d}/src/{f}', f'{VERIF}/harness/ludtwig/{f}'); have.add(f)
        have |= {'lib.rs', 'rt.rs'}
        write(f'{d}/src/lib.rs', ludtwig_root())
        for f in os.listdir(f'{d}/src'):
            if f not in have: os.unlink(f'{d}/src/{f}')
        link(f'{d}/ludtwig-config.toml', f'{REPO}/crates/ludtwig/ludtwig-config.toml')
        link(f'{d}/src/rt.rs', f'{VERIF}/harness/common/rt.rs')
    return d, name

def digest_inputs(h):
    m = hashlib.sha256()
    roots = [REPO + '/crates', REPO + '/Cargo.lock', f'{VERIF}/harness', f'{VERIF}/third_party', f'{VERIF}/tools/build.py']
    for r in roots:
        if os.path.isfile(r): fs = [r]
        else: fs = sorted(x for x in glob.glob(r + '/**', recursive=True) if os.path.isfile(x) and '/target/' not in x)
        for f in fs: m.update(f.encode()); m.update(open(f, 'rb').read())
    return m.hexdigest()

def rust_env(h): return dict(ENV, RUSTFLAGS='--cfg ludtwig_verif -Awarnings -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=yes', CARGO_TARGET_DIR=f'{BUILD}/{h}-target')
def build_ir(h, out, done=None):
    d, name = workspace(h, 'ir')
    key = digest_inputs(h)
    ll = f'{BUILD}/{h}.ll'
    if os.path.exists(ll) and os.path.exists(ll + '.key') and open(ll + '.key').read() == key: out['ll'] = ll; out['ir_seconds'] = 0.0; return
    t = time.time()
    tgt = f'{BUILD}/{h}-target/release/deps'
    for f in glob.glob(f'{tgt}/{name}-*') + glob.glob(f'{tgt}/lib{name}-*'): os.unlink(f)
    # fat LTO of the whole program; only its input (the linked bitcode) is needed, so the compiler is stopped there
    cmd = ['cargo', 'rustc', '--release', '--offline', '--lib', '--', '-C', 'lto=fat', '-C', 'save-temps']
    log = open(f'{BUILD}/{h}-ir.log', 'w+b')
    pr = subprocess.Popen(cmd, cwd=d, env=rust_env(h), stdout=log, stderr=log, start_new_session=True)
    while pr.poll() is None and not glob.glob(f'{tgt}/{name}-*.lto.after-restriction.bc'): time.sleep(0.05)
    if pr.poll() is None: os.killpg(pr.pid, signal.SIGKILL); pr.wait()
    elif pr.returncode != 0:
        log.seek(0); sys.stderr.write(log.read().decode(errors='replace')[-6000:]); raise SystemExit(2)
    out['cargo_seconds'] = time.time() - t
    bc = glob.glob(f'{tgt}/{name}-*.lto.input.bc')
    assert len(bc) == 1, bc
    bc = [shutil.move(bc[0], f'{BUILD}/{h}.tmp.0.bc')]
    if done: done.set()
    entries = ['h_warmup']
    for f in glob.glob(f'{VERIF}/harness/{h}/*.rs'): entries += re.findall(r'\b(h_\w+) =>', open(f).read())
    entries = sorted(set(entries))
    tmp = f'{BUILD}/{h}.tmp'
    sh([llvm('opt'), '-strip-debug', '-passes=internalize,globaldce,function(lower-invoke,simplifycfg),globaldce,function(sroa,early-cse,simplifycfg,dce),globaldce',
        '-internalize-public-api-list=' + ','.join(entries), bc[0], '-o', tmp + '.2.bc'])
    sh([llvm('llvm-dis'), tmp + '.2.bc', '-o', tmp + '.ll'])
    os.rename(tmp + '.ll', ll)
    for x in (tmp + '.0.bc', tmp + '.2.bc'): os.unlink(x)
    open(ll + '.key', 'w').write(key)
    out['ll'] = ll; out['ir_seconds'] = time.time() - t

def build_native(h, out, after=None):
    if after: after.wait()
    d, name = workspace(h, 'native')
    t = time.time()
    sh(['cargo', 'build', '--release', '--offline', '--bin', 'replay'], cwd=d, env=rust_env(h))
    out['replay'] = f'{BUILD}/{h}-target/release/replay'; out['native_seconds'] = time.time() - t

def build_engine(out):
    t = time.time()
    sh(['cargo', 'build', '--release', '--offline', '--manifest-path', f'{VERIF}/engine/Cargo.toml', '--target-dir', f'{BUILD}/engine'])
    out['symex'] = f'{BUILD}/engine/release/symex'; out['engine_seconds'] = time.time() - t

class Build:
    """build everything for harness h: .ir() waits for the IR module and the engine, .native() for the replay binary"""
    def __init__(self, h):
        os.makedirs(BUILD, exist_ok=True)
        self.out = {}; self.errs = []; done = threading.Event()
        def run(f, *a):
            try: f(*a)
            except BaseException as e: self.errs.append((f.__name__, repr(e)))
            finally:
                if f is build_ir: done.set()
        self.t = {f.__name__: threading.Thread(target=run, args=(f, *a), daemon=True) for f, *a in ((build_ir, h, self.out, done), (build_native, h, self.out, done), (build_engine, self.out))}
        for t in self.t.values(): t.start()
    def wait(self, *names):
        for n in names: self.t[n].join()
        if self.errs: raise RuntimeError(str(self.errs))
        return self.out
    def ir(self): return self.wait('build_ir', 'build_engine')
    def native(self): return self.wait('build_native')['replay']
if __name__ == '__main__':
    for h in sys.argv[1:] or ['parser', 'ludtwig']:
        b = Build(h); t = time.time(); b.ir(); print('ir', time.time() - t); b.native(); print('native', time.time() - t, b.out)
