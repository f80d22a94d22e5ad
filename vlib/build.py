"""Builds the accountmerge binary from /repo's current working tree (never inside /repo)."""
import fcntl, glob, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACCOUNTMERGE_REPO", "/repo")
TARGET = os.environ.get("ACCOUNTMERGE_TARGET", os.path.join(VERIF, ".build", "target"))

def env():
    e = dict(os.environ)
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["CARGO_TARGET_DIR"] = TARGET
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    return e

def build():
    """Returns the path of a freshly built binary; exits 2 if /repo does not build."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(TARGET + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # Do not trust timestamps: always recompile the crate itself.
    for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "accountmerge-*")):
        shutil.rmtree(d, ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", "accountmerge",
           "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = os.path.join(TARGET, "debug", "accountmerge")
    if p.returncode != 0 or not os.path.exists(out):
        sys.stdout.write("BUILD FAILED\n" + p.stdout[-4000:] + "\n")
        sys.exit(2)
    return out
