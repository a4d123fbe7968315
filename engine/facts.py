"""Builds the rustc driver and extracts facts from /repo's working tree."""
import fcntl, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATE = "terminus_store"


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN",
              "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nerror: %s failed (exit %d)\n" % (what, r.returncode))
        sys.exit(3)
    return r.stdout


def tree_hash(features):
    h = hashlib.sha256()
    h.update(features.encode())
    files = []
    for base in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", ".cargo/config.toml", ".cargo/config"):
        files.append(os.path.join(REPO, f))
    files.append(os.path.join(VERIF, "driver/src/main.rs"))
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            h.update(b"<none>")
    return h.hexdigest()[:24]


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    run(["cargo", "+nightly", "build", "--offline"], os.path.join(VERIF, "driver"), e, "building the rustc driver")
    return os.path.join(BUILD, "driver", "debug", "mirfacts")


def facts(features=""):
    """path of the facts file for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "facts-%s.jsonl" % tree_hash(features))
        if os.path.exists(out):
            return out, True
        drv = build_driver()
        e = env()
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], VERIF, e, "rustc --print sysroot").strip()
        tgt = os.path.join(BUILD, "target")
        e["CARGO_TARGET_DIR"] = tgt
        # cargo's freshness cache would skip the wrapper
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", "terminus-store", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml")], cwd=VERIF, env=e, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRFACTS_CRATE"] = CRATE
        e["MIRFACTS_OUT"] = tmp
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if features:
            cmd += ["--features", features]
        run(cmd, REPO, e, "extracting facts from %s" % REPO)
        if not os.path.exists(tmp):
            sys.stderr.write("error: the driver was not run (no facts written)\n")
            sys.exit(3)
        os.rename(tmp, out)
        # keep the cache small
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-") and f.endswith(".jsonl")),
                     key=os.path.getmtime)
        for f in old[:-12]:
            os.unlink(f)
        return out, False


if __name__ == "__main__":
    t = time.time()
    p, c = facts(sys.argv[1] if len(sys.argv) > 1 else "")
    print(p, "cached" if c else "extracted", "%.1fs" % (time.time() - t))
