"""Build the machines E03 runs the library on: WebAssembly (node) and three that Miri interprets."""
import glob, os, re, shutil, subprocess, sys, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIRI = ["powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "x86_64-unknown-linux-gnu"]
PORT = os.path.join(ROOT, "port")
T = os.path.join(ROOT, "target")


def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cap-lints=warn -Awarnings", CARGO_TERM_COLOR="never", **kw)
    e.pop("RUSTC_WRAPPER", None)
    return e


def miri(t, res):
    p = subprocess.run(["cargo", "miri", "run", "-q", "--offline", "--bin", "apfloat-port-miri", "--target", t, "--target-dir", os.path.join(T, "miri")],
                       cwd=PORT, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env(XDG_CACHE_HOME=os.path.join(T, "miri-cache"), MIRIFLAGS="-Zmiri-disable-isolation"))
    if p.returncode != 0 or len(p.stdout) != 2:
        res[t] = p.stderr.decode("utf-8", "replace")[-3000:] or "no greeting"


def wasm(res):
    # the standard library's own vendored packages, and ours from cargo's cache
    src = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    vend = os.path.join(T, "vendor")
    os.makedirs(vend, exist_ok=True)
    for d in glob.glob(os.path.join(src, "lib/rustlib/src/rust/library/vendor/*")):
        l = os.path.join(vend, os.path.basename(d))
        if not os.path.islink(l):
            os.symlink(d, l)
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    for n, v, c in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "(\w+)"', open(os.path.join(PORT, "Cargo.lock")).read()):
        l = os.path.join(vend, n + "-" + v)
        if os.path.exists(os.path.join(l, ".cargo-checksum.json")):
            continue
        found = glob.glob(os.path.join(home, "registry/src/*", n + "-" + v))
        if not found:
            res["wasm"] = "%s %s is not in cargo's cache" % (n, v)
            return
        shutil.rmtree(l, ignore_errors=True)
        shutil.copytree(found[0], l)
        with open(os.path.join(l, ".cargo-checksum.json"), "w") as f:
            f.write('{"files":{},"package":"%s"}' % c)
    p = subprocess.run(["cargo", "build", "--offline", "--release", "--lib", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown",
                        "--target-dir", os.path.join(T, "wasm"), "--config", 'source.crates-io.replace-with="v"', "--config", 'source.v.directory="%s"' % vend],
                       cwd=PORT, env=dict(env(), RUSTFLAGS=env()["RUSTFLAGS"] + " -Clink-arg=--max-memory=268435456"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        res["wasm"] = p.stdout[-3000:]


def build():
    """Returns what could not be built."""
    res = {}
    for d in ("miri-cache", "work-E03"):
        os.makedirs(os.path.join(T, d), exist_ok=True)
    os.environ["MON_ROOT"] = ROOT
    ths = [threading.Thread(target=miri, args=(t, res)) for t in MIRI] + [threading.Thread(target=wasm, args=(res,))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    return res
