"""Builds a cargo workspace in which *all* of /repo's crates compile offline.

The git dependencies on burn (absent here) are replaced by the stand-ins in
/verif/stubs; every source and every crate manifest is /repo's own, reached by
symlink, so whatever is in /repo's working tree is what gets compiled.

usage: mkws.py WORKDIR [extra-member ...]"""
import os, re, sys

R = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.path.abspath(sys.argv[1])
EXTRA = sys.argv[2:]


def put(path, text):
    path = f"{W}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def link(path, target):
    path = f"{W}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        os.unlink(path)
    os.symlink(target, path)


root = open(f"{R}/Cargo.toml").read()
members = ["crates/onnx-ir", "crates/onnx-ir-derive", "crates/burn-onnx"] + EXTRA
root = re.sub(r"(?ms)^members = \[.*?^\]\n", "members = [" + ", ".join(f'"{m}"' for m in members) + "]\n", root)
root = re.sub(r"(?ms)^default-members = \[.*?^\]\n", "", root)
root = re.sub(r"(?ms)^exclude = \[.*?^\]\n", "", root)
root = re.sub(
    r"(?m)^(burn[a-z-]*) = \{[^}\n]*github[^}\n]*\}\n",
    lambda m: f'{m[1]} = {{ path = "stubs/{m[1]}", default-features = false }}\n',
    root,
)
root = re.sub(r'(?m)^float-cmp = .*\n', f'float-cmp = {{ path = "stubs/float-cmp" }}\n', root)
# the monitors want line numbers but not full debug info
root = re.sub(r"(?ms)^\[profile\.dev\].*?(?=^\[|\Z)", "", root)
root += '\n[profile.dev]\ndebug = "line-tables-only"\nopt-level = 0\nincremental = false\n'
root += '[profile.dev.build-override]\nopt-level = 0\n'
put("Cargo.toml", root)
for c in ("onnx-ir", "onnx-ir-derive", "burn-onnx", "burn-import", "onnx-tests"):
    link(f"crates/{c}", f"{R}/crates/{c}")
link("stubs", f"{V}/stubs")
for e in EXTRA:
    if e.startswith("harness/"):
        link(e, f"{V}/{e}")
lock = open(f"{R}/Cargo.lock").read()
stamp = f"{W}/.lock-src"
if not os.path.exists(f"{W}/Cargo.lock") or not os.path.exists(stamp) or open(stamp).read() != lock:
    put("Cargo.lock", lock)
    put(".lock-src", lock)
