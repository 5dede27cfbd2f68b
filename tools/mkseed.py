"""Development tool: turns a change in the scratch clone /tmp/sr into /verif/seeded/<id>/ and tries it out.

usage: mkseed.py ID PROP DEMO.py 'needs' 'what it breaks' [--extra PROP,PROP]   (change already made in /tmp/sr)
       mkseed.py --check ID [PROP ...]                                        (run checks against an existing one)"""
import json, os, subprocess, sys, tarfile, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sr"
RUN = '''#!/bin/bash
# Runs in /repo (or any checkout). Builds the importer with the stand-in burn crates packed beside this file,
# generates code for one model (or imports it) and compares with the values written in demo.py.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -r "$t"' EXIT
tar xzf "$here/kit.tgz" -C "$t" && cp "$here/demo.py" "$t/"
cd "${VERIF_REPO:-$PWD}" && export VERIF_REPO="$PWD" VERIF_BUILD="${DEMO_BUILD:-$t/build}"
cd "$t" && PYTHONPATH="$t/tools" python3-vt demo.py
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def env(**k):
    return dict(os.environ, VERIF_REPO=S, DEMO_BUILD="/tmp/w/vbs", VERIF_BUILD="/tmp/w/vbs", VERIF_SEED="1", **k)


def demo(d):
    p = sh("bash", d + "/demo.sh", env=env(), cwd=S)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def tests():
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/w/vbs/target", INSTA_UPDATE="no", VERIF_REPO=S)
    sh(sys.executable, V + "/tools/mkws.py", "/tmp/w/vbs/tws", env=e)
    r = []
    for p in ("onnx-ir", "burn-onnx", "onnx-ir-derive"):
        q = sh("cargo", "test", "-p", p, "--offline", cwd="/tmp/w/vbs/tws", env=e)
        t = q.stdout + q.stderr
        r += [l for l in t.splitlines() if (l.startswith("test result") and " 0 failed" not in l) or l.startswith("error") or "FAILED" in l]
        if q.returncode and not r:
            r.append(t[-500:])
    sh("bash", "-c", f"rm -f {S}/crates/onnx-ir/tests/opset_compliance/.*.pending-snap")
    return r


def check(props):
    for p in props:
        q = sh("python3-vt", V + "/run.py", p, env=env())
        v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"   check {p}: exit {q.returncode}, {len(v)} violations", q.stdout[:700] if q.returncode else q.stdout[-300:], flush=True)


def apply(i):
    sh("git", "-C", S, "checkout", "--", ".")
    sh("git", "-C", S, "pull", "-q")
    p = sh("git", "-C", S, "apply", f"{V}/seeded/{i}/patch.diff")
    if p.returncode:
        print("does not apply:", i, p.stderr)
        return False
    return True


if sys.argv[1] == "--check":
    i = sys.argv[2]
    if apply(i):
        check(sys.argv[3:] or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]])
    sh("git", "-C", S, "checkout", "--", ".")
    sys.exit()
i, prop, dm, needs, what = sys.argv[1:6]
d = f"{V}/seeded/{i}"
os.makedirs(d, exist_ok=True)
patch = sh("git", "-C", S, "diff").stdout
assert patch, "no change in " + S
open(d + "/patch.diff", "w").write(patch)
open(d + "/demo.sh", "w").write(RUN)
os.chmod(d + "/demo.sh", 0o755)
shutil.copy(dm, d + "/demo.py")
with tarfile.open(d + "/kit.tgz", "w:gz", compresslevel=9) as t:
    for p in ("pv/__init__.py", "pv/e2e.py", "pv/pb.py", "stubs", "harness", "tools/mkws.py", "tools/demolib.py"):
        t.add(os.path.join(V, p), p, filter=lambda x: None if "__pycache__" in x.name else x)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
bad = tests()
print("own tests with the change:", bad or "all pass")
rc, t = demo(d)
print("demo with the change:", rc, t[-600:])
check([prop])
sh("git", "-C", S, "checkout", "--", ".")
rc0, t0 = demo(d)
print("demo without:", rc0, t0[-300:])
print("KEEP" if not bad and rc != 0 and rc0 == 0 else "DO NOT KEEP")
