"""C24, C25: what folding starts from, and whole chains folded with Nova."""
import json, os, re, time
import common
from common import SPEC, ROOT, ToolError
from gadgets import numeral
from header import FIELDS, hexs

PROPS = ["C24", "C25"]
ASSUME = {
    "C24": ["the times of the blocks before number 123456 are the ones written in spec/HeaderStart.tla; its tip and target are tied to a header with real work",
            "a circuit that does not accept the state it is run on is not judged here"],
    "C25": ["Nova itself is trusted: a verifier that accepts a false statement would be reported, but its soundness is not explored",
            "headers with real work are needed: 57 mined or historical ones"],
}
CLAUSES = {
    "StartLength": "the published state does not have 16 entries", "StartTip": "the published tip is not the hash of block 123455",
    "StartWindow": "the published times are not those of the last 11 blocks, oldest first", "StartTarget": "the published target is not the one of the epoch",
    "StartEpoch": "the published epoch start is not the time of block 122976", "StartCounter": "the published counter is not 123456 modulo 2016",
    "StartWork": "the published work is not zero", "StartStuck": "block 123456 cannot follow the published state",
    "ListLength": "not one circuit per header", "ListOrder": "a circuit is not for the header at its place in the list",
    "NoParameters": "no public parameters", "WrongState": "the verified state is not the one the rules give", "InvalidProved": "a proof of an invalid chain verifies",
    "ValidRefused": "a valid chain cannot be proved", "FalseClaim": "a proof verifies for a claim it does not make",
}


def gen(prop, work, tier, seed):
    fix = os.path.join(work, "fixtures.ndjson")
    with open(fix, "w") as f:
        for l in open(os.path.join(ROOT, "fixtures", "headers.txt")):
            n, h = l.split()
            f.write(json.dumps(dict(name=n, bytes=list(bytes.fromhex(h)))) + "\n")
    out = os.path.join(work, "cases.ndjson")
    thorough = tier == "thorough"
    g = common.tlc(os.path.join(SPEC, "HeaderGen.tla"), os.path.join(SPEC, "HeaderGen.cfg"), work,
                   dict(FIXTURES=fix, OUT=out, FOCUS=prop, NOWN="2" if thorough else "1", NSOME="0", NRANDOM="600" if thorough else "60", NFLIPS="0"),
                   600, coverage=False, extra=["-seed", str(seed)])
    if g.rc != 0 or not os.path.exists(out):
        raise ToolError("HeaderGen: " + common.tail(g.out))
    return [json.loads(l) for l in open(out)]


def run(prop, vh, tier, seed, t0):
    work = common.workdir(prop)
    n_self = common.selftest(work) + common.selftest_sha(work)
    cases = gen(prop, work, tier, seed)
    hx = lambda hs: ",".join(bytes(x).hex() for x in hs)
    cf = os.path.join(work, "cases.txt")
    with open(cf, "w") as f:
        for i, c in enumerate(cases):
            if prop == "C24":
                z = ";".join(" ".join("%x" % numeral(x) for x in zs) for zs in c["zs"])
                f.write(f"{FIELDS[(i + seed) % 3]} {hx(c['hdrs'])};{z}\n")
            else:
                f.write(f"c pallas {hx(c['hdrs'])} {hexs(c)}\n")
    r = common.sh([vh, "setup" if prop == "C24" else "nova", "--cases", cf, "--out", work], 600 if tier == "quick" else 6000)
    m = re.search(r'^\{"(cases|events)".*\}$', r.stdout, re.M)
    if r.returncode != 0 or not m:
        raise ToolError("recorder failed: " + common.tail(r.stdout))
    stats = json.loads(m.group(0))
    trace = os.path.join(work, "events.ndjson")
    L = open(trace).read().rstrip("\n").split("\n")
    head = json.loads(L[0])
    if prop == "C24":
        first = [l.split()[1] for l in open(os.path.join(ROOT, "fixtures", "headers.txt")) if l.startswith("R123456 ")][0]
        head["first"] = 1 + [bytes(x).hex() for x in head["headers"]].index(first)
    else:
        ix = {bytes(x).hex(): k + 1 for k, x in enumerate(head["headers"])}
        head["lists"] = [[ix[bytes(x).hex()] for x in c["hdrs"]] for c in cases]
    L[0] = json.dumps(head)
    open(trace, "w").write("\n".join(L) + "\n")
    mod = "StartTrace" if prop == "C24" else "HeaderNova"
    lst = "StartList" if prop == "C24" else "HeaderNovaList"
    bad = []
    M = os.path.join(SPEC, mod + ".tla")
    t = common.tlc(M, os.path.join(SPEC, mod + ".cfg"), work, dict(TRACE=trace), 900, coverage=False)
    if t.rc != 0 or t.inv:
        if not t.inv:
            raise ToolError(mod + ": " + common.tail(t.out))
        if t.inv[0] not in ("Conforms", "Folds"):
            raise ToolError("history invariant fails on a folded chain: " + common.tail(t.out))
        t = common.tlc(M, os.path.join(SPEC, lst + ".cfg"), work, dict(TRACE=trace), 900, coverage=False)
        flat = re.sub(r"\s+", " ", t.out)
        for x in re.finditer(r'<<\s*"(BAD|BADCHAIN)", (\d+), \{([^}]*)\}\s*>>', flat):
            bad.append(dict(clauses=[y.strip().strip('"') for y in x.group(3).split(",")], ev=json.loads(L[int(x.group(2))]), line=int(x.group(2))))
        if not bad:
            raise ToolError("violation without a listing: " + common.tail(t.out))

    def show(e):
        if e["k"] == "z":
            return dict(kind="published state", field=head["fields"][e["f"] - 1]["id"], state=[str(numeral(x)) for x in e["z"]])
        if e["k"] == "b":
            return dict(kind="list of headers", field=head["fields"][e["f"] - 1]["id"], headers=[bytes(head["headers"][j - 1]).hex() for j in e["list"]],
                        circuits=e["n"], got=[dict(v=g["v"], tip="%064x" % numeral(g["tip"]), time=numeral(g["time"])) for g in e["got"]])
        if e["k"] == "p":
            return dict(kind="public parameters", verdict=e["v"])
        return dict(kind={"v": "proof checked", "w": "proof offered for another claim"}[e["k"]], proved_steps=e["upto"], claimed_steps=e["steps"], verdict=e["v"],
                    headers=[bytes(x).hex() for x in cases[e["case"]]["hdrs"]], state=[str(numeral(x)) for x in e["z"]], learned=[str(numeral(x)) for x in e["zo"]])

    known = common.known_findings(prop)
    fresh = []
    for x in bad:
        key = ":".join(x["clauses"])
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {known[key]}")
        else:
            fresh.append(x)
    n = len(L) - 1
    kinds = {}
    for l in L[1:]:
        e = json.loads(l)
        k = e["k"] + ":" + e.get("v", "")
        kinds[k] = kinds.get(k, 0) + 1
    cov = dict(states=t.distinct, transitions=t.generated, traces_validated_against_impl=n - len(bad), events=kinds, cases=len(cases), headers=len(head["headers"]),
               recorder=stats, override_selftest_states=n_self, samples=[show(json.loads(L[1 + (n - 1) * k // 3])) for k in range(4)], exhaustive=False)
    common.write_evidence(prop, tier, seed, "model_checking", cov, time.time() - t0, len(fresh), ASSUME[prop])
    if fresh:
        by = {}
        for x in fresh:
            for c in x["clauses"]:
                by.setdefault(c, []).append(x)
        rep = dict(property=prop, tier=tier, seed=seed, repo=common.repo_head(),
                   rerun=f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 run_check.py {prop}",
                   violations=[dict(clause=c, meaning=CLAUSES.get(c, c), count=len(v), first=show(v[0]["ev"])) for c, v in by.items()])
        p = common.write_replay(prop, "setup" if prop == "C24" else "fold", rep)
        for c, v in by.items():
            print(f"{prop}: {c}: {CLAUSES.get(c, c)} ({len(v)}), e.g. {json.dumps(show(v[0]['ev']))[:900]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: {n} recorded events follow the specification ({json.dumps(kinds)}), {t.distinct} states")
    return 0
