#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Builds the harness of one property from /repo's working tree, explores its
bounded space exhaustively, confirms every failure by replaying it in a fresh
process, writes evidence/ID.json.  Exit 0: held; 1: VIOLATION printed; 2: the
check itself could not run (for instance the tree does not compile).
"""
import json, os, re, shlex, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
PROPS = {p["id"]: p for p in (json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip())}
CONF = json.load(open(os.path.join(V, "checks.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def known(pid):
    """finding: property=ID case="OP FILL 'S' 'C'" text"""
    out = []
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r'finding: property=(\S+) case=\[(.*?)\] (.*)', line)
        if m and m.group(1) == pid:
            out.append((shlex.split(m.group(2)), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    conf = CONF[pid]
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed))
    env.update(conf.get("env", {}))
    env.pop("VH_ONLY", None)
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    total = dict(states=0, transitions=0, validated=0, skipped=0, cases=0, outcomes=0)
    fams, samples, confirmed, flaky, exhaustive = [], [], [], [], True
    for run in conf["runs"]:
        h, fl = run["harness"], run.get("flavour", "plain")
        b = sh([os.path.join(V, "build.sh"), h, fl], env=env)
        if b.returncode != 0:
            print(b.stdout[-4000:])
            print("check %s: the harness does not build from this tree" % pid)
            return 2
        exe = os.path.join(V, "build", fl, h)
        out = os.path.join(V, "build", fl, h + "." + tier + ".json")
        if os.path.exists(out):
            os.unlink(out)
        budget = run.get("budget", {}).get(tier, 0 if tier == "thorough" else 420)
        r = sh([exe, "explore", out, "0", str(budget)], env=env)
        if r.returncode != 0 or not os.path.exists(out):
            print(r.stdout[-4000:])
            print("check %s: the explorer did not finish" % pid)
            return 2
        j = json.load(open(out))
        total["outcomes"] += j["distinct_outcomes"]
        for f in j["families"]:
            for k in ("states", "transitions", "validated", "skipped", "cases"):
                total[k] += f[k]
            fams.append(dict(f, harness=h, flavour=fl))
            if f["completed"] != f["size"]:
                exhaustive = False
        if j["capped"]:
            exhaustive = False
        samples += j["samples"]
        for f in j["failures"]:
            if len(confirmed) >= 3 or (confirmed and time.time() - t0 > 150):
                break
            ok = None
            for first in (f["idx"], f["first"]):          # alone, then with the cases that preceded it in its process
                cmd = [exe, "replay", f["family"], str(first), str(f["idx"])]
                a = sh(cmd, env=env)
                if a.returncode != 1:
                    continue
                if f["kind"] == "hang" or sh(cmd, env=env).returncode == 1:   # a hang was replayed with twice the CPU time
                    ok = (cmd, a.stdout)
                    break
            if not ok:
                flaky.append(f)
                continue
            d = sh([exe, "describe", f["family"], str(f["idx"])], env=env).stdout
            path = os.path.join(V, "replays", "%s-%d.txt" % (pid, len(confirmed) + 1))
            with open(path, "w") as o:
                o.write("property %s: %s\n%s\n\ncase: %s\n%s\n\nreplay:\n  cd %s && ./build.sh %s %s && VERIF_TIER=%s %s%s\n" % (
                    pid, PROPS[pid]["title"], PROPS[pid]["statement"], f["family"] + " #" + str(f["idx"]) + " [" + f["kind"] + "] " + f["msg"],
                    d[-6000:], V, h, fl, tier, "".join("%s=%s " % kv for kv in conf.get("env", {}).items()), " ".join(map(shlex.quote, ok[0]))))
            confirmed.append((path, f, ok[1].strip()))
    found = []
    for case, text in known(pid):
        exe = os.path.join(V, "build", conf["runs"][0].get("flavour", "plain"), conf["runs"][0]["harness"])
        r = sh([exe, "case"] + case, env=env)
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
            found.append(text)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"], "transitions": total["transitions"],
            "traces_validated_against_impl": total["validated"],
            "cases": total["cases"], "distinct_outcomes": total["outcomes"], "skipped_outside_domain": total["skipped"],
            "exhaustive": bool(exhaustive and not confirmed), "families": fams, "samples": samples[:12],
            "bound": conf["bound"], "known_findings": found, "unconfirmed": flaky,
        },
        "assumptions": conf["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d comparisons, %d distinct outcomes, %d outside the domain, %s, %.1f s" % (
        pid, tier, total["cases"], total["states"], total["transitions"], total["validated"], total["outcomes"], total["skipped"],
        "complete" if exhaustive else "NOT complete", time.time() - t0))
    for f in flaky:
        print("note: not confirmed on replay, not reported: %s #%d %s" % (f["family"], f["idx"], f["msg"][:200]))
    for path, f, msg in confirmed:
        print("  " + msg[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if confirmed else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:                                # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
