"""C26: histories of the lazy cell, generated by TLC, replayed and validated."""
import json, os, re, time
import common
from common import SPEC, ToolError

PROPS = ["C26"]
ASSUME = ["histories up to the given length with at most three handles and two kept looks",
          "the computation is deterministic; one that calls the cell itself is not explored", "Java, TLC and the recorder are trusted"]


def cfg(work, name, depth):
    t = open(os.path.join(SPEC, name + ".cfg")).read()
    p = os.path.join(work, name + ".cfg")
    open(p, "w").write(re.sub(r"Depth = \d+", f"Depth = {depth}", t))
    return p


def run(prop, vh, tier, seed, t0):
    work = common.workdir(prop)
    depth = 6 if tier == "quick" else 8
    g = common.tlc(os.path.join(SPEC, "LazyGen.tla"), cfg(work, "LazyGen", depth), work, timeout=900, coverage=False)
    if g.rc != 0 or g.inv:
        raise ToolError("LazyGen: " + common.tail(g.out))
    flat = re.sub(r"\s+", " ", g.out)
    hist = [re.findall(r'<<"(\w+)", (\d+)>>', m.group(1)) for m in re.finditer(r'<< ?"HIST", <<(.*?>>) ?>> ?>>', flat)]
    hist = sorted(set(tuple(h) for h in hist))
    if len(hist) < 1000 or any(len(h) != depth for h in hist):
        raise ToolError(f"LazyGen gave {len(hist)} histories")
    cf = os.path.join(work, "cases.txt")
    open(cf, "w").write("\n".join(" ".join(f"{a} {h}" for a, h in x) for x in hist) + "\n")
    r = common.sh([vh, "lazy", "--cases", cf, "--out", work], 600)
    if r.returncode != 0 or '{"events"' not in r.stdout:
        raise ToolError("recorder failed: " + common.tail(r.stdout))
    trace = os.path.join(work, "events.ndjson")
    M = os.path.join(SPEC, "LazyTrace.tla")
    t = common.tlc(M, cfg(work, "LazyTrace", depth), work, dict(TRACE=trace), 900, coverage=False)
    L = open(trace).read().rstrip("\n").split("\n")
    bad = []
    if t.rc != 0 or t.inv:
        if not t.inv:
            raise ToolError("LazyTrace: " + common.tail(t.out))
        t = common.tlc(M, cfg(work, "LazyList", depth), work, dict(TRACE=trace), 900, coverage=False)
        for m in re.finditer(r'<<"BAD", (\d+), (\d+)>>', t.out):
            e = json.loads(L[int(m.group(1)) - 1])
            bad.append(dict(step=int(m.group(2)), history=[f"{a}({h}) -> ran {c}, value {v}" for a, h, c, v in zip(e["a"], e["h"], e["c"], e["v"])]))
        if not bad:
            raise ToolError("violation without a listing: " + common.tail(t.out))
    cov = dict(states=g.distinct + t.distinct, transitions=g.generated + t.generated, traces_validated_against_impl=len(L) - len(bad), histories=len(hist),
               depth=depth, samples=[L[k * (len(L) - 1) // 3] for k in range(4)], exhaustive=True)
    common.write_evidence(prop, tier, seed, "model_checking", cov, time.time() - t0, len(bad), ASSUME)
    if bad:
        bad.sort(key=lambda b: (b["step"], len(b["history"])))
        p = common.write_replay(prop, "history", dict(property=prop, tier=tier, seed=seed, repo=common.repo_head(),
                                rerun=f"cd /verif && VERIF_TIER={tier} python3 run_check.py {prop}", count=len(bad), first=bad[:5]))
        print(f"{prop}: {len(bad)} histories are not behaviours of Lazy, e.g. step {bad[0]['step']} of {bad[0]['history']}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: {len(L)} histories of {depth} actions are behaviours of Lazy, {t.distinct} states")
    return 0
