"""Shared by run_check.py: builds, TLC runs, evidence and verdicts."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env_tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def env_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def workdir(name):
    d = os.path.join(ROOT, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"timeout after {timeout}s: {' '.join(map(str, cmd))[:200]}") from e


def build():
    """The harness against /repo's working tree, and the TLC operator overrides."""
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    with open(os.path.join(ROOT, "work", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        env.update(RUSTFLAGS="--cfg verif_hooks", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        env.pop("CARGO_RESOLVER_LOCKFILE_PATH", None)
        env.pop("CARGO_TARGET_DIR", None)
        r = sh(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", os.path.join(HARNESS, "target")],
               800, cwd=HARNESS, env=env)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])
        cls = os.path.join(ROOT, "work", "cls")
        srcs = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
        stamp = os.path.join(cls, "stamp")
        if not os.path.exists(stamp) or any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in srcs):
            os.makedirs(cls, exist_ok=True)
            r = sh(["javac", "-cp", JARS, "-d", cls] + srcs, 120)
            if r.returncode != 0:
                raise ToolError("javac: " + r.stdout[-2000:])
            open(stamp, "w").write("ok")
    return os.path.join(HARNESS, "target", "release", "vh")


class Tlc:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") and out)
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.left = int(m.group(3).replace(",", "")) if m else -1
        self.violated = re.findall(r"Invariant (\w+) is violated|[Pp]roperty (\w+) is violated|PostCondition (\w+)|POSTCONDITION", out)
        self.inv = [a or b for a, b in re.findall(r"Invariant (\w+) is violated|property (\w+) is violated", out)]
        self.finished = "Model checking completed" in out or "states left on queue" in out
        self.actions = {}
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
            self.actions[m.group(1)] = int(m.group(3))


def tlc(module, cfg, work, env=None, timeout=700, workers=None, extra=(), plain=False, heap="10g", coverage=True):
    md = os.path.join(work, "md_" + os.path.basename(cfg).replace(".", "_"))
    shutil.rmtree(md, ignore_errors=True)
    cp = (SPEC + ":" if plain else os.path.join(ROOT, "work", "cls") + ":") + JARS
    cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", f"-Xmx{heap}", "-cp", cp]
    # every module lies in spec/ or in the work folder
    cmd += [f"-DTLA-Library={SPEC}:{work}"]
    cmd += ["tlc2.TLC", "-workers", str(workers or CPUS), "-noTE", "-metadir", md]
    if coverage:
        cmd += ["-coverage", "30"]
    cmd += ["-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    r = sh(cmd, timeout, env=e, cwd=work)
    shutil.rmtree(md, ignore_errors=True)
    with open(os.path.join(work, os.path.basename(cfg) + ".out"), "w") as f:
        f.write(r.stdout)
    return Tlc(r.stdout, r.returncode)


def tail(s, n=1500):
    return s[-n:]


def selftest(work):
    """The Java overrides mean what BigNum.tla says."""
    txt = open(os.path.join(SPEC, "BigNum.tla")).read().replace("MODULE BigNum ", "MODULE BigNumPlain ", 1)
    open(os.path.join(work, "BigNumPlain.tla"), "w").write(txt)
    r = tlc(os.path.join(SPEC, "BigNumTest.tla"), os.path.join(SPEC, "BigNumTest.cfg"), work, timeout=200, workers=1, coverage=False)
    if r.inv or r.distinct < 100 or r.rc != 0:
        raise ToolError("BigNum override self-test failed:\n" + tail(r.out))
    return r.distinct


def selftest_sha(work):
    """The Java override of Sha256d means what Sha256.tla says."""
    txt = open(os.path.join(SPEC, "Sha256.tla")).read().replace("MODULE Sha256 ", "MODULE Sha256Plain ", 1)
    open(os.path.join(work, "Sha256Plain.tla"), "w").write(txt)
    r = tlc(os.path.join(SPEC, "Sha256Test.tla"), os.path.join(SPEC, "Sha256Test.cfg"), work, timeout=200, workers=1, coverage=False)
    if r.inv or r.distinct < 16 or r.rc != 0:
        raise ToolError("Sha256 override self-test failed:\n" + tail(r.out))
    return r.distinct


def known_findings(prop):
    """key -> text of the findings listed for a property"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def repo_head():
    r = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.strip()


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 1),
                       violations=violations, assumptions=assumptions), f, indent=1)
        f.write("\n")


def write_replay(prop, name, obj):
    d = os.path.join(ROOT, "work", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{name}.json")
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    return p
