#!/usr/bin/env python3
"""mkbug.py FILE...: make seeded bugs from definitions, verifying each in a scratch copy."""
import sys, os, json, subprocess, shutil, tempfile, runpy
DEMO = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the property holds, non-zero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stacks-rs = { path = "$repo/stacks", features = ["clarity", "crypto", "transaction", "wallet-sdk", "derive", "rpc"] }
secp256k1 = { version = "0.28.2", features = ["recovery"] }
[profile.dev]
debug = false
incremental = false
TOML
cd "$tmp" && CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}" cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    # scratch copy at /tmp/bugwork mounted as path deps; tests need /repo path -> use cargo directly
    W='/tmp/bugwork'
    if not os.path.exists(W): sh(f'cp -a /repo {W}')
    sh(f'cd {W} && git fetch -q /repo && git checkout -q -f $(git -C /repo rev-parse HEAD)')
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    for f in sys.argv[1:]:
        d=runpy.run_path(f)
        for b in d['BUGS']:
            i=b['id']; out=f'/verif/seeded/{i}'
            sh(f'cd {W} && git checkout -q -- .')
            ok=True
            for path,old,new in b['edits']:
                p=f'{W}/{path}'; s=open(p).read()
                n=s.count(old)
                if n!=1: print(i,'EDIT matches',n,path,repr(old[:60])); ok=False; break
                open(p,'w').write(s.replace(old,new))
            if not ok: continue
            diff=sh(f'cd {W} && git diff').stdout
            env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTUP_TOOLCHAIN='stable',CARGO_TARGET_DIR=f'{W}/target')
            t=sh(f'cd {W} && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8',env=env).stdout
            if 'could not compile' in t: print(i,'COMPILE FAIL'); print(t[-2500:]); continue
            bad=[l for l in t.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED') and 'src/lib.rs' not in l.split('...')[0].replace('stacks_derive/src/from_tuple.rs','src/lib.rs')]
            npass=sum(1 for l in t.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok'))
            if bad or npass<77: print(i,'TESTS FAIL',npass,bad[:5]); continue
            os.makedirs(out,exist_ok=True)
            open(f'{out}/patch.diff','w').write(diff)
            open(f'{out}/main.rs','w').write(b['demo'].lstrip())
            open(f'{out}/demo.sh','w').write(DEMO); os.chmod(f'{out}/demo.sh',0o755)
            json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{out}/meta.json','w'),indent=1)
            env2=dict(os.environ,DEMO_TARGET='/tmp/demotarget')
            r1=sh(f'cd {W} && {out}/demo.sh',env=env2)
            r0=sh(f'cd /repo && {out}/demo.sh',env=env2)
            good=r0.returncode==0 and r1.returncode!=0 and 'could not compile' not in r1.stdout
            print(i,'OK' if good else 'DEMO PROBLEM clean=%d bug=%d'%(r0.returncode,r1.returncode))
            if not good:
                print(r0.stdout[-1500:]); print('---'); print(r1.stdout[-1500:]); shutil.rmtree(out)
            else: print('   ',r1.stdout.strip().splitlines()[1:2] or r1.stdout.strip()[:100])
    sh(f'cd {W} && git checkout -q -- .')
main()
