"""Builds simulation harnesses from /repo's current working tree (shared by every check)."""
import hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
MISSING = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go"
BP = "github.com/blueprint-uservices/blueprint/"


class BuildError(Exception):
    pass


class GeneratedError(Exception):
    """The repository's compiler refused a valid wiring spec, or what it generated does not build."""


def env(**extra):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(extra)
    return e


def run(cmd, cwd=None, timeout=800, **extra):
    p = subprocess.run(cmd, cwd=cwd, env=env(**extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(map(str, cmd)), p.returncode, out[-6000:]))
    return out


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path, encoding="utf-8").read() == text:
            return
    except OSError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def base_overlay(d):
    """go.mod files of /repo without the one requirement that cannot be fetched (as /opt/vp/overlay.py)."""
    rep = {}
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x != ".git"]
        if "go.mod" in files:
            src = os.path.join(root, "go.mod")
            text = open(src, encoding="utf-8").read()
            new = re.sub(r"(?m)^\s*(?:require\s+)?" + re.escape(MISSING) + r"\s.*\n", "", text)
            if new != text:
                dst = os.path.join(d, "mod", os.path.relpath(src, REPO).replace("/", "_"))
                write(dst, new)
                rep[src] = dst
    path = os.path.join(d, "base_overlay.json")
    write(path, json.dumps({"Replace": rep}, indent=1))
    return path


def workspace(d, extra=()):
    """A go.work that contains the repository's modules and the simulator."""
    uses = []
    text = open(os.path.join(REPO, "go.work"), encoding="utf-8").read()
    for m in re.findall(r"(?m)^\s*(?:use\s+)?(\./\S+|\.)\s*$", text):
        uses.append(os.path.normpath(os.path.join(REPO, m)))
    uses.append(os.path.join(VERIF, "sim"))
    uses += list(extra)
    w = "go 1.22.0\n\nuse (\n" + "".join("\t%s\n" % u for u in uses) + ")\n"
    path = os.path.join(d, "go.work")
    write(path, w)
    s = open(os.path.join(REPO, "go.work.sum"), encoding="utf-8").read()
    write(path + ".sum", s)
    return path


def tool():
    """Builds the instrumenter."""
    out = os.path.join(BUILD, "bin", "instr")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "instr"), GOWORK="off")
    return out


def harness(name, packages, main, seams=(), extra_modules=(), modules_overlay=None):
    """Instruments `packages` and builds the harness `main`; returns the binary's path."""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    base = base_overlay(d)
    if modules_overlay:
        j = json.load(open(base))
        j["Replace"].update(modules_overlay)
        base = os.path.join(d, "base_overlay2.json")
        write(base, json.dumps(j, indent=1))
    gw = workspace(d, extra_modules)
    t = tool()
    ov = os.path.join(d, "overlay.json")
    cmd = [t, "-out", os.path.join(d, "instr"), "-overlay", ov, "-base", base]
    if seams:
        cmd += ["-seams", ",".join(seams)]
    run(cmd + list(packages), cwd=os.path.join(VERIF, "sim"), GOWORK=gw)
    out = os.path.join(d, "harness")
    run(["go", "build", "-overlay", ov, "-o", out, main], cwd=os.path.join(VERIF, "sim"), GOWORK=gw)
    return out


def generate(d, spec):
    """Runs the repository's compiler on a wiring spec of sim/cmd/gen; returns the generated modules
    (directory, module name).  The process's package main becomes an importable package without main()."""
    base = base_overlay(d)
    app = os.path.join(VERIF, "app")
    gw = workspace(d, [app])
    gen = os.path.join(d, "gen")
    run(["go", "build", "-overlay", base, "-o", gen, "./cmd/gen"], cwd=os.path.join(VERIF, "sim"), GOWORK=gw)
    out = os.path.join(d, "genout")
    shutil.rmtree(out, ignore_errors=True)
    try:
        run([gen, "-out", out, "-spec", spec], cwd=os.path.join(VERIF, "sim"), GOWORK=gw, GOFLAGS="-overlay=" + base, timeout=300)
    except BuildError as e:
        raise GeneratedError("the compiler fails on spec %s: %s" % (spec, e))
    mods = []
    for root, dirs, files in os.walk(out):
        if "go.mod" in files:
            text = open(os.path.join(root, "go.mod"), encoding="utf-8").read()
            name = re.search(r"(?m)^module\s+(\S+)", text).group(1)
            if not name.startswith("blueprint/"):
                continue
            write(os.path.join(root, "go.mod"), "module %s\n\ngo 1.22.0\n" % name)
            for f in sorted(os.listdir(root)):
                p = os.path.join(root, f)
                if f == "main.go":
                    os.remove(p)
                elif f.endswith(".go"):
                    src = open(p, encoding="utf-8").read()
                    write(p, re.sub(r"(?m)^package main$", "package proc", src, count=1))
            mods.append((root, name))
    return sorted(mods)


def gen_harness(name, spec, main, packages=(), seams=(), stubs=()):
    """A harness that runs code generated by the repository's compiler, instrumented."""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    mods = generate(d, spec)
    pkgs = list(packages)
    for root, mod in mods:
        for r, dirs, files in os.walk(root):
            if any(f.endswith(".go") for f in files):
                rel = os.path.relpath(r, root)
                pkgs.append(mod if rel == "." else mod + "/" + rel)
    extra = [os.path.join(VERIF, "app")] + [os.path.join(VERIF, "sim", "stubs", s) for s in stubs] + [r for r, _ in mods]
    try:
        return harness(name, pkgs, main, seams, extra)
    except BuildError as e:
        plain(d, spec, mods, extra)
        raise e


def plain(d, spec, mods, extra):
    """Builds generated modules as they are."""
    gw, base = workspace(d, extra), base_overlay(d)
    try:
        run(["go", "build", "-overlay", base] + [r + "/..." for r, _ in mods], cwd=d, GOWORK=gw)
    except BuildError as e:
        raise GeneratedError("the code generated for spec %s does not build: %s" % (spec, e))


def compiles(name, spec, stubs=()):
    """Generates and builds the code for a spec, uninstrumented; raises GeneratedError."""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    mods = generate(d, spec)
    plain(d, spec, mods, [os.path.join(VERIF, "app")] + [os.path.join(VERIF, "sim", "stubs", s) for s in stubs] + [r for r, _ in mods])
