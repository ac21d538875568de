"""Builds the symbolic executor, the LLVM IR of a harness together with the real crates it depends
on (from /repo's working tree), and the native replay binary."""
import glob, json, os, shutil, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(V, "build"))
TARGET = "riscv64gc-unknown-linux-gnu"
NIGHTLY = "nightly"

class BuildError(Exception):
    pass

def env(tc, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e.update(RUSTUP_TOOLCHAIN=tc, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             HOME=os.environ.get("HOME", "/root"), VP_REPO=REPO, REV="verif")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(kw)
    return e

def run(cmd, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=kw.pop("timeout", 400), **kw)
    except subprocess.TimeoutExpired:
        raise BuildError("timeout: " + " ".join(cmd))
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), "\n".join(rendered(p.stdout) + [l for l in p.stderr.split("\n") if not l.startswith("   Compiling")])[-6000:]))
    return p

def rendered(out):
    """the compiler's errors in cargo's messages"""
    r = []
    for l in out.splitlines():
        if '"level":"error"' in l:
            try:
                r.append(json.loads(l)["message"]["rendered"])
            except (ValueError, KeyError, TypeError):
                pass
    return r

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)

def engine():
    td = os.path.join(BUILD, "engine")
    run(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/engine/Cargo.toml",
         "--target-dir", td], env=env("stable"))
    return td + "/release/sx"

def manifest(h, native):
    spec = json.load(open(f"{V}/harness/{h}/harness.json"))
    deps = [f'sxrt = {{ path = "{V}/sxrt"%s }}' % (', features = ["native"]' if native else "")]
    for name, d in spec["deps"].items():
        deps.append(f"{name} = {d}".replace("$REPO", REPO).replace("$V", V))
    if not native:
        for name, d in spec.get("sym_deps", {}).items():
            deps.append(f"{name} = {d}")
    t = f"""[package]
name = "h_{h}"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "{V}/harness/{h}/lib.rs"
[dependencies]
""" + "\n".join(deps) + "\n"
    if native:
        t += """[[bin]]
name = "replay"
path = "replay.rs"
[profile.dev]
opt-level = 0
debug = 1
overflow-checks = true
debug-assertions = true
[profile.release]
debug = 1
"""
    else:
        t += """[profile.dev]
opt-level = 1
debug = 0
panic = "%s"
overflow-checks = true
debug-assertions = true
codegen-units = 1
incremental = false
""" % ("unwind" if spec.get("unwind") else "abort")
        patches = spec.get("patches", {})
        if patches:
            t += "[patch.crates-io]\n" + "".join(f'{k} = {{ path = "{shim(k, f)}" }}\n' for k, f in patches.items())
    return t

def locked(name):
    t = open(REPO + "/Cargo.lock").read()
    i = t.index(f'name = "{name}"\n')
    return t[i:].split('version = "', 1)[1].split('"', 1)[0]

def shim(name, files):
    """A copy of the locked version of a dependency with some files replaced (see /verif/shims)."""
    ver = locked(name)
    src = glob.glob(os.path.expanduser(f"~/.cargo/registry/src/*/{name}-{ver}"))
    if not src:
        raise BuildError(f"no source of {name} {ver} in the cargo registry")
    dst = os.path.join(BUILD, "shims", f"{name}-{ver}")
    if not os.path.exists(dst):
        tmp = dst + ".%d" % os.getpid()
        shutil.copytree(src[0], tmp)
        for to, frm in files.items():
            shutil.copy(f"{V}/shims/{frm}", f"{tmp}/{to}")
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp)
    return dst

def prep(h, native):
    d = os.path.join(BUILD, h, "nat" if native else "sym")
    write(d + "/Cargo.toml", manifest(h, native))
    if native:
        write(d + "/replay.rs", f"fn main() {{ sxrt::replay_main(h_{h}::entries()) }}\n")
    lock = d + "/Cargo.lock"
    if not os.path.exists(lock):
        shutil.copy(REPO + "/Cargo.lock", lock)
    return d

def ir(h):
    """LLVM IR of the harness and everything below it. Returns (list file, seconds)."""
    t0 = time.time()
    d = prep(h, False)
    flags = ["--emit=llvm-ir", "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Cembed-bitcode=no", "-Awarnings", "-Zthreads=8", "-Zub-checks=no",
             "--cfg=verif"]
    unwind = json.load(open(f"{V}/harness/{h}/harness.json")).get("unwind")
    std = ["-Zbuild-std=std,panic_unwind", "-Zbuild-std-features=panic-unwind"] if unwind else ["-Zbuild-std=std,panic_abort", "-Zbuild-std-features="]
    cmd = ["cargo", "build", "--offline", "--lib", *std, "--target", TARGET,
           "--message-format=json", "--target-dir", d + "/target"]
    try:
        p = run(cmd, cwd=d, env=env(NIGHTLY, RUSTFLAGS=" ".join(flags)))
    except BuildError:
        # once more without the parallel front end
        flags = [f for f in flags if not f.startswith("-Zthreads")]
        p = run(cmd, cwd=d, env=env(NIGHTLY, RUSTFLAGS=" ".join(flags)))
    lls = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact" or "lib" not in "".join(m["target"]["kind"]):
            continue
        for f in m["filenames"]:
            if TARGET in f and f.endswith((".rlib", ".rmeta")):
                lls.append(f)
    out = []
    for f in lls:
        if f.endswith(".rlib") and ("panic_abort" if unwind else "panic_unwind") not in f:
            dd, b = os.path.split(f)
            stem = b[3:-5]
            for x in sorted(os.listdir(dd)):
                if x.endswith(".ll") and (x == stem + ".ll" or x.startswith(stem + ".")):
                    out.append(os.path.join(dd, x))
    lst = d + "/ir.list"
    write(lst, "\n".join(dict.fromkeys(out)) + "\n")
    return lst, time.time() - t0

def native(h, release=False):
    t0 = time.time()
    d = prep(h, True)
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", d + "/target"]
    if release:
        cmd.append("--release")
    run(cmd, cwd=d, env=env("stable", RUSTFLAGS="-Awarnings --cfg=verif"))
    return d + ("/target/release/replay" if release else "/target/debug/replay"), time.time() - t0

if __name__ == "__main__":
    h = sys.argv[2] if len(sys.argv) > 2 else ""
    t0 = time.time()
    try:
        print({"setup": lambda: engine(), "engine": lambda: engine(), "ir": lambda: ir(h), "native": lambda: native(h)}[sys.argv[1]](), time.time() - t0)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
