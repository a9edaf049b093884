"""Build the fact extractor and (re)extract facts from /repo's current working tree.

Facts are keyed by a content hash of every source file the analysed crates are built from, so a stale
cache is never used; cargo's own freshness (mtime based) is never trusted for the analysed crates.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATES = ["graphql_tools", "hive_console_sdk", "hive_router"]
PKGS = ["graphql-tools", "hive-console-sdk", "hive-router"]


class BuildError(Exception):
    pass


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTC_", "RUSTFLAGS", "CARGO_ENCODED")) or k in ("RUSTC", "RUSTDOCFLAGS"):
            e.pop(k)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    return e


def run(cmd, cwd, env, timeout=1700):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


SRC_DIRS = ["bin/router", "lib/graphql-tools", "lib/hive-console-sdk"]
SRC_FILES = ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "rust-toolchain", ".cargo/config.toml"]


def source_hash():
    h = hashlib.sha256()
    files = []
    for d in SRC_DIRS:
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git", "tests", "benches"))
            for f in fs:
                if f.endswith((".snap", ".md", ".pending-snap")):
                    continue
                files.append(os.path.join(r, f))
    files += [os.path.join(REPO, f) for f in SRC_FILES]
    for f in sorted(files):
        if not os.path.isfile(f):
            continue
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def driver_hash():
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs", "rust-toolchain.toml"):
        with open(os.path.join(VERIF, "driver", f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def read(p):
    try:
        with open(p) as f:
            return f.read().strip()
    except OSError:
        return ""


def ensure(log=lambda s: None):
    """Return (facts_dir, info). Serialised by a lock so that parallel checks build once."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure(log)


def _ensure(log):
    t0 = time.time()
    facts = os.path.join(BUILD, "facts")
    os.makedirs(facts, exist_ok=True)
    env = base_env()
    sysroot = run(["rustc", "--print", "sysroot"], "/", env).strip()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    dh, sh = driver_hash(), source_hash()
    drv = os.path.join(BUILD, "drv", "debug", "vpdriver")
    info = {"source_hash": sh, "rebuilt": False}
    drv_new = False
    if read(os.path.join(BUILD, "driver.hash")) != dh or not os.path.exists(drv):
        e = dict(env)
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "drv")
        run(["cargo", "build", "--offline", "--locked"], os.path.join(VERIF, "driver"), e)
        with open(os.path.join(BUILD, "driver.hash"), "w") as f:
            f.write(dh)
        drv_new = True
    stamp = os.path.join(facts, "stamp")
    want = sh + ":" + dh
    if not drv_new and read(stamp) == want and all(os.path.exists(os.path.join(facts, c + ".jsonl")) for c in CRATES):
        info["wall_s"] = time.time() - t0
        return facts, info
    if os.path.exists(stamp):
        os.unlink(stamp)
    e = dict(env)
    target = os.path.join(BUILD, "target")
    e["CARGO_TARGET_DIR"] = target
    e["VP_CRATES"] = ",".join(CRATES)
    e["VP_FACTS"] = facts
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    # cargo's freshness is mtime based: forget what it knows about the analysed crates
    for fp in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if any(d == p or (d.startswith(p + "-") and fp.endswith(".fingerprint")) for p in PKGS):
                    shutil.rmtree(os.path.join(fp, d))
    for c in CRATES:
        p = os.path.join(facts, c + ".jsonl")
        if os.path.exists(p):
            os.unlink(p)
    run(["cargo", "check", "-p", "hive-router", "--lib", "--features", "hive-router/graphiql", "--locked", "--offline"], REPO, e)
    for c in CRATES:
        p = os.path.join(facts, c + ".jsonl")
        if not os.path.exists(p):
            raise BuildError("the extractor produced no facts for crate " + c)
    with open(stamp, "w") as f:
        f.write(want)
    info["rebuilt"] = True
    info["wall_s"] = time.time() - t0
    return facts, info


if __name__ == "__main__":
    try:
        print(ensure())
    except BuildError as ex:
        print("BUILD FAILED:", ex)
        sys.exit(2)
