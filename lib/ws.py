"""Cargo workspace /verif/build/ws: symlinks to /repo's crates and to the driver (the root manifest of
/repo/src/rust cannot be loaded, see DESIGN.md).  Returns the environment to run cargo in."""
import os, re, shutil
SRC = os.environ.get("VERIF_SRC", "/repo/src/rust")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(VERIF, "build", "ws")

def link(target, path):
    if os.path.islink(path) and os.readlink(path) == target: return
    if os.path.lexists(path): os.remove(path)
    os.symlink(target, path)

def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f: f.write(text)

def make():
    os.makedirs(WS, exist_ok=True)
    text = open(f"{SRC}/Cargo.toml").read()
    for table in ("package", "dependencies"):
        text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
    text, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["cli", "fcb_core", "driver", "kani"]', text)
    text += '\n[profile.dev]\ndebug = 0\nopt-level = 1\nincremental = false\n'
    write(f"{WS}/Cargo.toml", text)
    for m in ("cli", "fcb_core"): link(f"{SRC}/{m}", f"{WS}/{m}")
    link(os.path.join(VERIF, "driver"), f"{WS}/driver"); link(os.path.join(VERIF, "kani"), f"{WS}/kani")
    lock = f"{WS}/Cargo.lock"
    if not os.path.exists(lock): shutil.copy(os.path.join(VERIF, "driver", "ws.Cargo.lock"), lock)
    env = dict(os.environ)
    env.update({"PATH": "/root/.cargo/bin:" + env.get("PATH", ""), "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
        "CARGO_TARGET_DIR": os.path.join(VERIF, "build", "target")})
    return env
if __name__ == "__main__":
    import subprocess, sys
    e = make(); sys.exit(subprocess.call(sys.argv[1:], cwd=WS, env=e))
