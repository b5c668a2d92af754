"""Builds the fact driver and extracts facts from /repo's current working tree."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly"


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS")) and k not in ("CARGO_HOME",):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sysroot():
    rc, o = _run(["rustc", "--print", "sysroot"], "/", _env())
    if rc:
        raise BuildError("no nightly rustc: " + o)
    return o.strip()


def driver():
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, o = _run(["cargo", "build", "--offline", "-q"], os.path.join(VERIF, "driver"), e)
    if rc:
        raise BuildError("driver does not build:\n" + o[-4000:])
    return os.path.join(BUILD, "driver", "debug", "factdriver")


def _sync_symlink(dst, src):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        os.remove(dst)
    os.symlink(src, dst)


def client_ws(name="ws", extra=()):
    ws = os.path.join(BUILD, name)
    os.makedirs(ws, exist_ok=True)
    s = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    members = ["progenitor-client"] + [os.path.basename(x) for x in extra]
    for x in extra:
        _sync_symlink(os.path.join(ws, os.path.basename(x)), x)
    s, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]", "members = " + json.dumps(members), s, count=1)
    if n != 1:
        raise BuildError("no members list in Cargo.toml")
    p = os.path.join(ws, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    _sync_symlink(os.path.join(ws, "progenitor-client"), os.path.join(REPO, "progenitor-client"))
    return ws


STUBS = os.path.join(VERIF, "stubs")
GEN_MEMBERS = ("progenitor-client", "progenitor-impl", "progenitor-macro", "progenitor", "cargo-progenitor")
# crates that are not installed here, replaced by type-level stand-ins
STUBBED = ("openapiv3", "schemars", "typify", "serde_yaml", "rustfmt-wrapper", "env_logger")
# crates only the tests or the build of unanalysed parts use
UNUSED = ("assert_cmd", "base64", "chrono", "clap-cargo", "dropshot", "expectorate", "futures", "hyper", "rand", "regress", "semver", "tokio", "url", "uuid")


def gen_ws():
    """a workspace in which the generator crates type-check against stand-ins for the crates that are not installed"""
    ws = os.path.join(BUILD, "gws")
    os.makedirs(ws, exist_ok=True)
    src = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    try:
        import tomllib
        root = tomllib.loads(src)
    except ValueError as e:
        raise BuildError("Cargo.toml: %s" % e)
    out = ["[workspace]", "members = " + json.dumps(list(GEN_MEMBERS)), 'resolver = "2"', "", "[workspace.dependencies]"]
    for name, spec in sorted(root["workspace"]["dependencies"].items()):
        spec = {"version": spec} if isinstance(spec, str) else dict(spec)
        if name in UNUSED or (name not in STUBBED and "path" not in spec and "git" in spec):
            d = os.path.join(ws, "unused", name)
            os.makedirs(os.path.join(d, "src"), exist_ok=True)
            _put(os.path.join(d, "src", "lib.rs"), "")
            _put(os.path.join(d, "Cargo.toml"), '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n\n[features]\n%s\n' % (
                name, re.match(r"[0-9.]+", spec.get("version", "0.0.0")).group(0), "".join("%s = []\n" % f for f in spec.get("features", []) if f != "default")))
            spec = {"path": "unused/" + name, "features": spec.get("features", [])}
        elif name in STUBBED:
            spec = {"path": os.path.join(STUBS, name)}
        elif "path" in spec:
            spec.pop("version", None)
        else:
            # whatever compatible version is installed
            spec["version"] = spec["version"].split(".")[0] if not spec["version"].startswith("0.") else ".".join(spec["version"].split(".")[:2])
            if name == "clap":
                spec["features"] = sorted(set(spec.get("features", [])) | {"derive"})
        out.append("%s = { %s }" % (json.dumps(name), ", ".join("%s = %s" % (k, json.dumps(v)) for k, v in sorted(spec.items()))))
    out += ["", "[patch.crates-io]"] + ["%s = { path = %s }" % (json.dumps(n), json.dumps(os.path.join(STUBS, n))) for n in ("openapiv3", "schemars", "serde_yaml")]
    _put(os.path.join(ws, "Cargo.toml"), "\n".join(out) + "\n")
    lock = os.path.join(STUBS, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(ws, "Cargo.lock"))
    for m in GEN_MEMBERS:
        _sync_symlink(os.path.join(ws, m), os.path.join(REPO, m))
    return ws


def _put(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


def _drop_fingerprint(target, prefix):
    d = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(d):
        for x in os.listdir(d):
            if x.startswith(prefix + "-"):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    shutil.rmtree(os.path.join(target, "debug", "build", prefix), ignore_errors=True)


def extract(ws, package, crate, target=None, extra=()):
    """cargo check PACKAGE with the driver as workspace wrapper; returns the facts."""
    drv = driver()
    target = target or os.path.join(BUILD, "target")
    _drop_fingerprint(target, package)
    e = _env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    fd, out = tempfile.mkstemp(suffix=".json", dir=BUILD)
    os.close(fd)
    os.remove(out)
    e["FACTS_CRATE"] = crate
    e["FACTS_OUT"] = out
    rc, o = _run(["cargo", "check", "--offline", "-p", package, *extra], ws, e)
    if rc:
        raise BuildError("cargo check %s failed:\n%s" % (package, o[-6000:]))
    if not os.path.exists(out):
        raise BuildError("the driver produced no facts for %s:\n%s" % (crate, o[-3000:]))
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    return d


def messages(ws, package, extra=(), target=None):
    """cargo check with JSON messages: (return code, [compiler message], raw stderr)"""
    e = _env()
    e["CARGO_TARGET_DIR"] = target or os.path.join(BUILD, "target")
    p = subprocess.run(["cargo", "check", "--offline", "-q", "-p", package, "--message-format=json", *extra], cwd=ws, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            j = json.loads(l)
            if j.get("reason") == "compiler-message":
                out.append(j)
    return p.returncode, out, p.stderr


def threads_witness(control=False):
    """compile witness/threads: (rc, messages, stderr)"""
    with Lock():
        ws = client_ws("wws", (os.path.join(VERIF, "witness", "threads"),))
        t = os.path.join(BUILD, "target")
        _drop_fingerprint(t, "threads")
        _drop_fingerprint(t, "progenitor-client")
        return messages(ws, "threads", ("--features", "control") if control else ())


def standalone_witness(text, deps):
    """compile the runtime source as a module of a crate with exactly the given dependency lines"""
    with Lock():
        d = os.path.join(BUILD, "standalone")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        open(os.path.join(d, "Cargo.toml"), "w").write(
            '[package]\nname = "standalone"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n%s\n\n[workspace]\n' % "\n".join(deps))
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        shutil.copyfile(os.path.join(VERIF, "witness", "standalone", "lib.rs"), os.path.join(d, "src", "lib.rs"))
        open(os.path.join(d, "src", "progenitor_client.rs"), "w").write(text)
        _drop_fingerprint(os.path.join(BUILD, "target"), "standalone")
        return messages(d, "standalone")


def client_facts():
    with Lock():
        return extract(client_ws(), "progenitor-client", "progenitor_client", extra=("--lib",))


def gen_facts(package="progenitor-impl"):
    """facts of a generator crate, type-checked against the stand-ins"""
    with Lock():
        bins = package == "cargo-progenitor"
        return extract(gen_ws(), package, package.replace("-", "_"), target=os.path.join(BUILD, "gtarget"), extra=("--bins",) if bins else ("--lib",))


if __name__ == "__main__":
    if sys.argv[1] == "--prebuild":
        try:
            client_facts()
            threads_witness()
            for p in ("progenitor-impl", "progenitor-macro", "cargo-progenitor"):
                gen_facts(p)
        except BuildError as e:
            print(e)
    else:
        json.dump(client_facts(), open(sys.argv[1], "w"))
