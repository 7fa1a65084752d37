"""Run the MIR fact extractor over /repo's current working tree.

Uses cargo's own build plan (no hand-written flags) for the exact rustc command
lines of the `cernan` library and binary, and runs them through the driver.
Nothing is written in /repo.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CERNAN_REPO", "/repo")
TARGET = os.environ.get("CERNAN_TARGET", "/repo/target")
TOOLCHAIN = "1.39.0"
DRIVER = os.path.join(HERE, "build", "driver")


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_TARGET_DIR="/nonexistent",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_BOOTSTRAP="1",
        LANG="C.UTF-8",
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(
        ["rustc", "--print", "sysroot"], env=env(), text=True
    ).strip()


def build_driver():
    os.makedirs(os.path.dirname(DRIVER), exist_ok=True)
    src = os.path.join(HERE, "driver", "src", "main.rs")
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    tmp = DRIVER + ".tmp%d" % os.getpid()
    r = subprocess.run(
        ["rustc", "--edition", "2018", "-O", src, "-o", tmp],
        env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        raise ExtractError("driver build failed:\n" + r.stdout)
    os.replace(tmp, DRIVER)


def build_plan():
    # NB: cargo's build-plan mode deletes .rlib files of its target directory,
    # so it must never be pointed at /repo/target: it gets an empty scratch
    # directory, and the paths are mapped back afterwards.
    e = env()
    scratch = tempfile.mkdtemp(prefix="cernan-plan.")
    e["CARGO_TARGET_DIR"] = scratch
    # cargo opens its home's lock file for writing: use a private copy of it
    home = os.path.join(scratch, "cargo-home")
    os.makedirs(home)
    for f in ("config", "config.toml"):
        if os.path.exists(os.path.join("/opt/vp/cargo-home", f)):
            shutil.copy(os.path.join("/opt/vp/cargo-home", f), home)
    e["CARGO_HOME"] = home
    try:
        return _build_plan(e, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _build_plan(e, scratch):
    r = subprocess.run(
        ["cargo", "build", "-Z", "unstable-options", "--build-plan", "--offline", "--locked"],
        cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    if r.returncode != 0:
        raise ExtractError("cargo build plan failed:\n" + r.stderr)
    plan = json.loads(r.stdout.replace(scratch, TARGET))
    out = {}
    for i in plan["invocations"]:
        if i["package_name"] == "cernan" and i["compile_mode"] == "build":
            out[i["target_kind"][0]] = i
    return out


def run_unit(inv, tmp, lib_meta):
    args, it = [], iter(inv["args"])
    for a in it:
        if a == "--out-dir":
            next(it)
            args += ["--out-dir", tmp]
        elif a.startswith("--emit"):
            args.append("--emit=metadata")
        elif a == "-C":
            v = next(it)
            if v.startswith(("incremental=", "link-arg", "codegen-units")):
                continue
            args += ["-C", v]
        elif a == "--extern":
            v = next(it)
            name = v.split("=", 1)[0]
            if name == "cernan":
                v = "cernan=" + lib_meta
            args += ["--extern", v]
        else:
            args.append(a)
    args += ["--cap-lints", "warn", "-Z", "mir-opt-level=0", "-Awarnings"]
    if not any(a.startswith("-L") for a in args):
        raise ExtractError("unexpected build plan")
    e = env()
    e.update({k: v for k, v in inv["env"].items() if k.startswith("CARGO")})
    e.pop("CARGO_TARGET_DIR", None)
    sr = sysroot()
    e["LD_LIBRARY_PATH"] = sr + "/lib"
    e["FACTS_CRATE"] = "cernan"
    e["FACTS_DIR"] = tmp
    r = subprocess.run(
        [DRIVER, "rustc", "--sysroot", sr] + args, cwd=REPO, env=e,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        raise ExtractError("rustc failed on /repo:\n" + r.stdout[-4000:])


def extract():
    """Returns (lib_facts, bin_facts) as parsed JSON."""
    build_driver()
    plan = build_plan()
    if "lib" not in plan or "bin" not in plan:
        raise ExtractError("build plan lacks lib/bin")
    tmp = tempfile.mkdtemp(prefix="cernan-facts.")
    try:
        run_unit(plan["lib"], tmp, None)
        meta = [f for f in os.listdir(tmp) if f.startswith("libcernan") and f.endswith(".rmeta")]
        if len(meta) != 1:
            raise ExtractError("no libcernan metadata")
        run_unit(plan["bin"], tmp, os.path.join(tmp, meta[0]))
        with open(os.path.join(tmp, "lib.json")) as f:
            lib = json.load(f)
        with open(os.path.join(tmp, "bin.json")) as f:
            bin_ = json.load(f)
        return lib, bin_
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        build_driver()
    else:
        l, b = extract()
        json.dump({"lib": l, "bin": b}, open(sys.argv[1], "w"))
