#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds/*.py (development only; no check uses it).
Each seed file sets: property, needs, breaks, edits=[(file, old, new)], demo=rust source."""
import sys,os,subprocess,json,glob,shutil,runpy
HERE=os.path.dirname(os.path.abspath(__file__))
DEMO='''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it: exit 0 if the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
dir="$(mktemp -d)" || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
lock="$repo/Cargo.lock"; [ -f "$lock" ] || lock=/opt/vp/Cargo.lock
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty-source-map = { path = "$repo" }
source-map-mappings = "0.5.0"
serde_json = "1.0"
T
cp "$lock" "$dir/Cargo.lock" 2>/dev/null
cd "$dir" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q || exit 3
timeout 120 "$dir/target/debug/demo"
'''
def main(only):
    for f in sorted(glob.glob(HERE+"/seeds/*.py")):
        id=os.path.basename(f)[:-3]
        if only and id not in only: continue
        s=runpy.run_path(f)
        w="/tmp/mkseed"; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x"%(w,w),shell=True,check=True)
        for file,old,new in s["edits"]:
            p=w+"/"+file; t=open(p).read()
            n=t.count(old)
            if n!=1: print(id,"edit matches",n,"times:",old[:60]); break
            open(p,"w").write(t.replace(old,new))
        else:
            d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
            open(d+"/patch.diff","wb").write(subprocess.run("git diff",shell=True,cwd=w,capture_output=True).stdout)
            open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
            open(d+"/demo.rs","w").write(s["demo"])
            json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
            print("wrote",id)
main(sys.argv[1:])
