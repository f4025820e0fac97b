"""Build the rustc driver if needed and dump facts about /repo's current tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

import names

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("PODO_REPO", "/repo")


class ExtractError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def driver():
    """-> path of the built driver (built on demand)."""
    d = os.path.join(VERIF, "driver")
    h = hashlib.sha256()
    for f in sorted(glob.glob(d + "/src/*.rs")) + [d + "/Cargo.toml"]:
        h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "driver.stamp")
    out = os.path.join(BUILD, "driver", "debug", "podo-mir-facts")
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    _run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=d, env=_env(os.path.join(BUILD, "driver")))
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return out


def extract():
    """-> parsed facts for the current tree of REPO."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        target = os.path.join(BUILD, "target")
        # force the wrapper to run: cargo's freshness cache would skip it
        for pat in (".fingerprint/podo-*", "build/podo", "build/podo-*", "incremental/podo-*"):
            for p in glob.glob(os.path.join(target, "debug", pat)):
                shutil.rmtree(p)
        out = os.path.join(BUILD, "facts.json")
        if os.path.exists(out):
            os.remove(out)
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env = _env(target)
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["PODO_FACTS_OUT"] = out
        _run(["cargo", "+nightly", "check", "--offline", "--locked", "--bins", "--quiet"], cwd=REPO, env=env)
        if not os.path.exists(out):
            raise ExtractError("the driver produced no facts")
        with open(out) as f:
            return names.restore(f.read())


if __name__ == "__main__":
    facts = extract()
    print("fns", len(facts["fns"]), "types", len(facts["types"]), "adts", len(facts["adts"]))
