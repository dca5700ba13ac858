#!/usr/bin/env python3
"""Regenerates /verif/sim/Cargo.lock: resolves with path dependencies in a scratch directory, then
rewrites the entries of the replaced git crates to their git sources."""
import os, re, shutil, subprocess, tempfile
SIM = '/verif/sim'
GIT = {
 'crfsuite': ('crfsuite-rs', 'tag=0.3.3', 'a'*40),
 'snips-nlu-ontology': ('snips-nlu-ontology', 'tag=0.67.1', 'b'*40),
 'snips-nlu-ontology-ffi-macros': ('snips-nlu-ontology', 'tag=0.67.1', 'b'*40),
 'snips-nlu-utils': ('snips-nlu-utils', 'tag=0.9.1', 'c'*40),
 'snips-nlu-parsers': ('snips-nlu-parsers', 'tag=0.4.3', 'd'*40),
 'ffi-utils': ('snips-utils-rs', 'rev=4292ad9', '4292ad9'+'e'*33),
}
d = tempfile.mkdtemp(prefix='genlock')
try:
    shutil.copytree(SIM + '/vendor', d + '/vendor'); shutil.copytree(SIM + '/shims', d + '/shims')
    def fix(p, ws=False):
        s = open(p).read()
        s = re.sub(r'^([\w-]+)\s*=\s*\{\s*git\s*=.*$', lambda m: f'{m.group(1)} = {{ path = "{d}/vendor/{m.group(1)}" }}', s, flags=re.M)
        s = re.sub(r'\[workspace\].*?(?=^\[)', '', s, flags=re.M | re.S) if ws else s
        s = re.sub(r'\[dev-dependencies\].*?(?=^\[|\Z)', '', s, flags=re.M | re.S)
        s = re.sub(r'\[\[bench\]\].*?(?=^\[|\Z)', '', s, flags=re.M | re.S)
        open(p, 'w').write(s)
    for c in os.listdir(d + '/vendor'): fix(f'{d}/vendor/{c}/Cargo.toml')
    os.makedirs(d + '/repo/ffi')
    shutil.copytree('/repo/src', d + '/repo/src'); shutil.copytree('/repo/ffi/src', d + '/repo/ffi/src')
    shutil.copy('/repo/Cargo.toml', d + '/repo/'); shutil.copy('/repo/ffi/Cargo.toml', d + '/repo/ffi/')
    fix(d + '/repo/Cargo.toml', True); fix(d + '/repo/ffi/Cargo.toml')
    os.makedirs(d + '/h/src'); open(d + '/h/src/main.rs', 'w').write('fn main(){}')
    s = open(SIM + '/Cargo.toml').read().replace('"/repo', f'"{d}/repo').replace('"shims', f'"{d}/shims')
    open(d + '/h/Cargo.toml', 'w').write(s)
    fix(d + '/h/Cargo.toml')
    subprocess.check_call(['cargo', 'generate-lockfile', '--offline'], cwd=d + '/h', env={**os.environ, 'CARGO_TARGET_DIR': d + '/t'})
    lock = open(d + '/h/Cargo.lock').read()
    for name, (repo, q, h) in GIT.items():
        lock = re.sub(r'(name = "%s"\nversion = "[^"]+"\n)' % re.escape(name), r'\1source = "git+https://github.com/snipsco/%s?%s#%s"\n' % (repo, q, h), lock)
    open(SIM + '/Cargo.lock', 'w').write(lock)
finally:
    shutil.rmtree(d)
subprocess.check_call(['cargo', 'metadata', '--offline', '--locked', '--format-version', '1'], cwd=SIM, stdout=subprocess.DEVNULL)
print('ok')
