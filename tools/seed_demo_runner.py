#!/usr/bin/env python3
"""Builds the demo program beside this file against the crates in the current directory and runs it.

Works only inside a temporary directory it creates.  Exit status: 0 if the demonstrated behaviour is right."""
import json, os, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
cfg = json.load(open(os.path.join(here, "demo.json")))
env = {k: v for k, v in os.environ.items()
       if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER")}
env.update(HOME="/root", PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"), CARGO_NET_OFFLINE="true",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS=cfg.get("rustflags", ""))
deps = []
for name, feats in cfg["crates"].items():
    deps.append('%s = { path = "%s/%s", default-features = false, features = %s }'
                % (name, repo, name, json.dumps(feats)))
deps += cfg.get("deps", [])
with tempfile.TemporaryDirectory(prefix="vpdemo.") as w:
    os.mkdir(os.path.join(w, "src"))
    shutil.copy(os.path.join(here, "demo.rs"), os.path.join(w, "src", "main.rs"))
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(w, "Cargo.lock"))
    with open(os.path.join(w, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "vpdemo"\nversion = "0.1.0"\nedition = "2024"\n\n[dependencies]\n%s\n\n[workspace]\n'
                '[profile.release]\n%s\n' % ("\n".join(deps), cfg.get("profile", "")))
    r = subprocess.run(["cargo", "build", "--offline", "--release", "--target-dir", w + "/target"], cwd=w, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        sys.exit(3)
    exe = w + "/target/release/vpdemo"
    cmd = [c.replace("{exe}", exe) for c in cfg.get("run", ["{exe}"])]
    try:
        r = subprocess.run(cmd, cwd=w, timeout=200, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
    except subprocess.TimeoutExpired:
        print("demo timed out")
        sys.exit(4)
    print(r.stdout[-3000:])
    sys.exit(0 if r.returncode == 0 else 1)
