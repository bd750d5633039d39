#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]: builds the harness
from /repo's working tree, explores, confirms violations by replaying them alone,
writes evidence/<property>.json.  Exit 0 or 1 (with a VIOLATION line)."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import checks as C

V = B.V

def env_for(scratch):
    e = dict(os.environ)
    e.update(OMPI_MCA_ess_singleton_isolated="1", OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMP_NUM_THREADS="1", DEAL_II_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NATRIUM_DIR=B.REPO, NATRIUM_HOME=scratch, TMPDIR=scratch,
             HOME=scratch, OMPI_MCA_orte_tmpdir_base=scratch, LC_ALL="C")
    return e

class Proc:
    def __init__(self, exe, args, scratch, name, np=None):
        self.dir = os.path.join(scratch, name)
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, "out.json")
        for f in (self.out, self.out + ".cur"):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe] + args + ["--out", self.out, "--scratch", self.dir]
        if np:
            cmd = ["mpirun", "-np", str(np), "--oversubscribe", "--bind-to", "none"] + cmd
        self.np = np
        self.log = open(os.path.join(self.dir, "log"), "w")
        ev = env_for(self.dir)
        if np:
            ev.pop("OMPI_MCA_ess_singleton_isolated")
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=self.dir, env=ev,
                                  start_new_session=True)
        self.last = (None, time.time())
    def cur(self):
        try:
            with open(self.out + ".cur", "rb") as f:
                return f.read(4000).split(b"\0")[0].decode("utf-8", "replace")
        except OSError:
            return ""
    def poll(self):
        return self.p.poll()
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
    def result(self):
        try:
            r = json.load(open(self.out))
            for k in range(1, self.np or 1):
                # what another rank saw
                o = json.load(open(self.out + ".r%d" % k))
                have = set(v["key"] for v in r["violations"])
                r["violations"] += [v for v in o["violations"] if v["key"] not in have]
                r["evaluations"] += o["evaluations"]
            return r
        except Exception:
            return None
    def seq(self):
        try:
            return open(self.out + ".seq").read().split()
        except OSError:
            return []
    def tail(self, n=1500):
        self.log.flush()
        try:
            return open(os.path.join(self.dir, "log"), errors="replace").read()[-n:]
        except OSError:
            return ""

def run_alone(exe, args, scratch, case, np, limit, seq=None):
    if seq:
        sf = os.path.join(scratch, "seqfile")
        open(sf, "w").write("\n".join(seq))
        pr = Proc(exe, args + ["--seq", sf], scratch, "alone", np)
    else:
        pr = Proc(exe, args + ["--only", case], scratch, "alone", np)
    t0 = time.time()
    while pr.poll() is None and time.time() - t0 < limit:
        time.sleep(0.02)
    if pr.poll() is None:
        pr.kill()
        return "hang", None, pr.tail()
    r = pr.result()
    if r is None:
        return "crash", None, pr.tail()
    return "ok", r, ""

def explore(exe, args, scratch, np, jobs, hang, deadline):
    ctr = os.path.join(scratch, "counter")
    if os.path.exists(ctr):
        os.unlink(ctr)
    base = args + ["--ctr", ctr]
    procs = [Proc(exe, args + ["--part", "%d/%d" % (i, jobs)] if np else base, scratch, "p%d" % i, np) for i in range(jobs)]
    results, bad, n = [], [], jobs
    capped = False
    while procs:
        time.sleep(0.05)
        for pr in list(procs):
            rc = pr.poll()
            if rc is not None:
                procs.remove(pr)
                r = pr.result()
                if r is not None:
                    sq = pr.seq()
                    for v in r["violations"]:
                        v["seq"] = sq
                    results.append(r)
                else:
                    case = pr.cur()
                    bad.append(("crash", case, pr.tail(), pr.seq()))
                    if case and len(bad) < 25 and not np:
                        procs.append(Proc(exe, base, scratch, "p%d" % n, np)); n += 1
            else:
                c = pr.cur()
                if c != pr.last[0]:
                    pr.last = (c, time.time())
                elif c and time.time() - pr.last[1] > hang:
                    pr.kill()
                    procs.remove(pr)
                    bad.append(("hang", c, pr.tail(), pr.seq()))
                    if len(bad) < 25 and not np:
                        procs.append(Proc(exe, base, scratch, "p%d" % n, np)); n += 1
        if time.time() > deadline and procs:
            for pr in procs:
                pr.kill()
            capped = True
            break
    return results, bad, capped

def known(prop):
    out = {}
    p = V + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop:
                    out[d["key"]] = d
    return out

def match_known(kn, key):
    if key in kn:
        return key
    for k in kn:
        if k.endswith("*") and key.startswith(k[:-1]):
            return k
    return None

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
    t0 = time.time()
    spec = C.CHECKS[prop]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    scratch = tempfile.mkdtemp(prefix="mc_%s_" % prop)
    os.chmod(scratch, 0o755)
    try:
        return work(prop, tier, spec, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def work(prop, tier, spec, scratch, t0, replay):
    parts = spec["parts"]
    tot = dict(cases=0, states=0, transitions=0, traces=0, evaluations=0)
    outcomes, notes, samples, viols = {}, {}, [], []
    capped = False
    limit = 780 if tier == "quick" else spec.get("thorough_limit", 6 * 3600)
    replays = json.load(open(replay)) if replay else None
    per_part = []
    for part in parts:
        if tier not in part.get("tiers", ("quick", "thorough")):
            continue
        if replays and replays["harness"] != part["harness"]:
            continue
        tb = time.time()
        exe, err = B.build(part["harness"], opt=part.get("opt", "-O1"), extra=part.get("extra", ()), ldextra=part.get("ldextra", ()))
        if not exe:
            print("BUILD FAILED for", part["harness"])
            print(err)
            return 2
        tb = time.time() - tb
        args = ["--tier", tier] + part.get("args", [])
        for np in part.get("np", [None]):
            hang = part.get("hang", 120)
            if replays:
                if np != replays.get("np"):
                    continue
                st, r, tail = run_alone(exe, args, scratch, replays["case"], np, 4 * hang if not replays.get("seq") else 900, replays.get("seq"))
                print(st, json.dumps(r["violations"], indent=1) if r else tail)
                if st != "ok" or r["violations"]:
                    print("VIOLATION property=%s replay=%s" % (prop, replay))
                    return 1
                continue
            jobs = part.get("jobs", 8) if not np else max(1, part.get("jobs", 8) // np)
            res, bad, cp = explore(exe, args, scratch, np, jobs, hang, t0 + limit)
            capped = capped or cp
            got = sum(r["cases"] for r in res)
            want = max([r["total_cases"] for r in res] or [0])
            if not res and not bad:
                print("ERROR: no result"); return 2
            for r in res:
                for k in ("cases", "states", "transitions", "traces", "evaluations"):
                    tot[k] += r[k]
                for k, v in r["outcomes"].items():
                    outcomes[k] = outcomes.get(k, 0) + v
                for k, v in r["notes"].items():
                    notes[k] = notes.get(k, 0) + v
                samples += r["samples"]
                for v in r["violations"]:
                    v.update(harness=part["harness"], np=np, exe=exe, args=args, hang=hang)
                    viols.append(v)
            for kind, case, tail, sq in bad:
                if not case:
                    # died outside of a case: the harness itself is broken, or the library cannot even start
                    print("ERROR: harness process died outside of any case\n" + tail)
                    viols.append(dict(key=kind + ":startup", what=tail[-400:], case="", harness=part["harness"], np=np, exe=exe, args=args, hang=hang, count=1, bad=kind))
                    continue
                viols.append(dict(key=kind + ":" + case, what="the process %s: %s" % ("crashed" if kind == "crash" else "hung", tail[-400:]), case=case,
                                  harness=part["harness"], np=np, exe=exe, args=args, hang=hang, count=1, bad=kind, seq=sq))
            per_part.append(dict(harness=part["harness"], np=np or 1, cases=want, cases_run=got, build_s=round(tb, 1)))
            if not bad and not cp and got != want:
                print("ERROR: %d of %d cases were run" % (got, want)); return 2
    if replays:
        print("not reproduced")
        return 0
    # merge by key, confirm each new key by replaying its case alone
    kn = known(prop)
    bykey = {}
    for v in viols:
        if v["key"] not in bykey:
            bykey[v["key"]] = v
        else:
            bykey[v["key"]]["count"] += v["count"]
    new, seen_known = [], {}
    for k, v in sorted(bykey.items()):
        m = match_known(kn, k)
        if m:
            seen_known.setdefault(m, []).append(v)
        else:
            new.append(v)
    for m, vs in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, m, kn[m]["what"]))
    confirmed = []
    for v in new:
        if len(confirmed) >= int(os.environ.get("MC_MAX", "8")):
            break
        if v["case"] == "":
            st, r, tail = ("crash", None, v["what"])
        else:
            st, r, tail = run_alone(v["exe"], v["args"], scratch, v["case"], v["np"], 3 * v["hang"])
        agrees = lambda: (st != "ok") if v.get("bad") else (st != "ok" or any(x["key"] == v["key"] for x in r["violations"]))
        ok = agrees()
        if not ok and v.get("seq"):
            # it may take the cases that ran before in the same process: replay that history
            left = max(60, limit - (time.time() - t0))
            st, r, tail = run_alone(v["exe"], v["args"], scratch, v["case"], v["np"], left, v["seq"])
            ok = agrees()
            v["history"] = ok
        if ok:
            confirmed.append(v)
        else:
            print("NOTE: not reproduced alone: %s (%s) in case %s" % (v["key"], v["what"][:300], v["case"]))
            v["unconfirmed"] = True
    rdir = V + "/build/replays/" + prop
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    for i, v in enumerate(confirmed):
        rf = "%s/%d.json" % (rdir, i)
        json.dump(dict(property=prop, harness=v["harness"], case=v["case"], np=v["np"], seq=v["seq"] if v.get("history") else None, key=v["key"], what=v["what"], tier=tier,
                       how="python3 mc/run.py %s --tier %s --replay %s" % (prop, tier, rf)), open(rf, "w"), indent=1)
        print("%s: %s [case %s%s, %d times]" % (v["key"], v["what"][:700], v["case"], ", after %d other cases in the same process" % (len(v["seq"]) - 1) if v.get("history") else "", v["count"]))
        print("VIOLATION property=%s replay=%s" % (prop, rf))
        rc = 1
    wall = time.time() - t0
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
               evaluations=tot["evaluations"], cases=tot["cases"], distinct_nontrivial=len(outcomes), exhaustive=not capped,
               rule=spec["rule"], outcomes=dict(sorted(outcomes.items(), key=lambda x: -x[1])[:40]), notes=notes,
               parts=per_part, samples=[str(s)[:300] for s in (samples[:10] or ["-"])],
               known_findings=len(seen_known), bound=spec["bound"])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=spec["level"], coverage=cov,
              wall_s=round(wall, 2), violations=len(confirmed), assumptions=spec["assumptions"])
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %d evaluations, %d distinct outcomes, %d known findings, %d violations, %.0f s%s" % (
        prop, tier, tot["cases"], tot["states"], tot["transitions"], tot["traces"], tot["evaluations"], len(outcomes), len(seen_known), len(new), wall,
        ", CAPPED" if capped else ""))
    if capped and rc == 0 and tier == "quick":
        print("ERROR: time limit reached before the space was explored")
        return 2
    return rc

if __name__ == "__main__":
    sys.exit(main())
