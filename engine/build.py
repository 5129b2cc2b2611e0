"""Builds the contracts from /repo's current working tree: wasm (for replay) and LLVM IR (for the engine).

The tracked and untracked-but-not-ignored sources of /repo are synchronised into a work directory under
/verif/build; nothing is written in /repo."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(ROOT, "src")
TGT = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")

# contract -> (package, crate file name, extra cargo options, contracts whose wasm it imports)
CONTRACTS = {
    "token": ("soroban-token-contract", "soroban_token_contract", [], []),
    "stake_rewards": ("phoenix-stake-rewards", "phoenix_stake_rewards", [], ["token"]),
    "stake": ("phoenix-stake", "phoenix_stake", [], ["token", "stake_rewards"]),
    "pool": ("phoenix-pool", "phoenix_pool", [], ["token", "stake"]),
    "pool_stable": ("phoenix-pool-stable", "phoenix_pool_stable", [], ["token", "stake"]),
    "factory": ("phoenix-factory", "phoenix_factory", [], ["token", "stake"]),
    "multihop": ("phoenix-multihop", "phoenix_multihop", [], ["token", "pool", "pool_stable", "factory"]),
    "trader": ("phoenix-trader", "phoenix_trader", [], ["token", "pool"]),
    "vesting": ("phoenix-vesting", "phoenix_vesting", ["--features", "minter"], ["token"]),
    "stable_math": ("phoenix-pool-stable", "phoenix_pool_stable", ["--cfg", "phoenix_probe"], ["token", "stake"]),
    "probe": ("zz-probe", "zz_probe", [], []),
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "RUSTC_WRAPPER")):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TGT,
             CARGO_PROFILE_RELEASE_LTO="off", CARGO_PROFILE_RELEASE_OPT_LEVEL="0",
             CARGO_PROFILE_RELEASE_STRIP="none", CARGO_TERM_COLOR="never",
             RUSTFLAGS="--emit=llvm-bc,link -Cembed-bitcode=yes", RUSTC_WRAPPER="")
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def repo_files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                         stdout=subprocess.PIPE, check=True).stdout
    return sorted(f for f in out.decode().split("\0") if f)


def sync(probe):
    """copy changed files only, so that cargo rebuilds only what changed"""
    os.makedirs(SRC, exist_ok=True)
    want = {}
    for f in repo_files():
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            want[f] = p
    if probe:
        base = os.path.join(VERIF, "probe")
        for d, _, fs in os.walk(base):
            for f in fs:
                p = os.path.join(d, f)
                want["contracts/zz_probe/" + os.path.relpath(p, base)] = p
    for f, p in want.items():
        q = os.path.join(SRC, f)
        data = open(p, "rb").read()
        if f == "Cargo.lock" and os.path.exists(q) and probe:
            # cargo adds the probe package to the copy
            s = os.path.join(ROOT, "lock.src")
            if os.path.exists(s) and open(s, "rb").read() == data:
                continue
        if not os.path.exists(q) or open(q, "rb").read() != data:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as fh:
                fh.write(data)
        if f == "Cargo.lock":
            with open(os.path.join(ROOT, "lock.src"), "wb") as fh:
                fh.write(data)
    for d, dirs, fs in os.walk(SRC):
        if os.path.islink(os.path.join(d, "target")) and "target" in dirs:
            dirs.remove("target")
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, SRC) not in want and f != "Cargo.lock":
                os.unlink(p)
    for d, dirs, fs in os.walk(SRC, topdown=False):
        if d != SRC and not os.listdir(d):
            os.rmdir(d)
    t = os.path.join(SRC, "target")
    if not os.path.islink(t):
        os.makedirs(TGT, exist_ok=True)
        os.symlink(TGT, t)


def closure(names):
    order = []

    def go(n):
        for d in CONTRACTS[n][3]:
            go(d)
        if n not in order:
            order.append(n)
    for n in CONTRACTS:
        if n in names:
            go(n)
    return order


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def build(names):
    """-> {contract: {"ll": path, "wasm": path, "hash": sha256 hex}}; timings in ["_s"]"""
    os.makedirs(ROOT, exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(ROOT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(names, t0)
    finally:
        lock.close()


def _build(names, t0):
    sync("probe" in names)
    os.makedirs(OUT, exist_ok=True)
    rel = os.path.join(TGT, "wasm32-unknown-unknown", "release")
    res = {}
    for n in closure(names):
        pkg, crate, opts, imports = CONTRACTS[n]
        stamp = os.path.join(ROOT, "stamp-" + n)
        d = digest([os.path.join(rel, CONTRACTS[i][1] + ".wasm") for i in imports]) + " ".join(opts)
        if imports and (not os.path.exists(stamp) or open(stamp).read() != d):
            os.utime(os.path.join(SRC, "contracts", {"stable_math": "pool_stable", "probe": "zz_probe"}.get(n, n), "src", "lib.rs"))
        cmd = ["--offline"] + ([] if "probe" in names else ["--locked"]) + \
            ["--release", "--target", "wasm32-unknown-unknown", "-p", pkg]
        hook = "--cfg" in opts
        try:
            sh(["cargo", "rustc" if hook else "build"] + cmd + (["--"] if hook else []) + opts, cwd=SRC, env=env())
        except BuildError:
            # the hook names functions that are gone: without it
            if not hook:
                raise
            sh(["cargo", "build"] + cmd, cwd=SRC, env=env())
            hook = None
        with open(stamp, "w") as f:
            f.write(d)
        if n not in names:
            continue
        wasm = os.path.join(rel, crate + ".wasm")
        bc = os.path.join(rel, "deps", crate + ".bc")
        ll = os.path.join(OUT, n + ".ll")
        key = digest([bc] + bitcode(rel))
        if not (os.path.exists(ll) and os.path.exists(ll + ".key") and open(ll + ".key").read() == key):
            link(crate, bc, rel, ll)
            with open(ll + ".key", "w") as f:
                f.write(key)
        res[n] = {"ll": ll, "wasm": wasm, "hash": hashlib.sha256(open(wasm, "rb").read()).hexdigest()}
        if hook is None:
            res[n]["nohook"] = True
    res["_s"] = round(time.time() - t0, 1)
    return res


def bitcode(rel):
    """the bitcode of every library"""
    deps = os.path.join(rel, "deps")
    return sorted(os.path.join(deps, f) for f in os.listdir(deps) if re.match(r".*-[0-9a-f]{16}\.bc$", f))


def link(crate, bc, rel, ll):
    libs = bitcode(rel)
    dis = sh(["llvm-dis", bc, "-o", "-"]) if False else subprocess.run(
        ["llvm-dis", bc, "-o", "-"], stdout=subprocess.PIPE, check=True, text=True).stdout
    exports = [m.group(1) for m in re.finditer(r"^define (?:dso_local )?i64 @([A-Za-z_]\w*)\(", dis, re.M)
               if not m.group(1).startswith("_ZN")]
    tmp = ll + ".tmp.bc"
    sh(["llvm-link", "--only-needed", bc] + libs * 3 + ["-o", tmp])
    sh(["opt", "-passes=internalize,globaldce,function(sroa,mem2reg,simplifycfg,instsimplify,dce)",
        "--internalize-public-api-list=" + ",".join(exports), "-S", tmp, "-o", ll])
    os.unlink(tmp)


def setup():
    r = build([n for n in CONTRACTS if n not in ("probe", "stable_math")])
    print("built", ", ".join(k for k in r if k[0] != "_"), "in", r["_s"], "s")


if __name__ == "__main__":
    if sys.argv[1:]:
        print(build(sys.argv[1:]))
    else:
        setup()
