#!/usr/bin/env python3
"""check.py <property> : decides one property by seeded simulation of /repo's current tree.  See DESIGN.md.
   check.py <property> --replay <file> : replays one plan file.
   Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), YSIM_REPO (default /repo)."""
import collections, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from props import PROPS

T0 = time.time()
def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

# ---------- plans ----------
class Node(list):
    pass
class Str(str):
    pass
def parse(s):
    toks = re.findall(r'"(?:\\.|[^"\\])*"|[()]|[^\s()"]+', s)
    pos = 0
    def one():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "(":
            n = Node()
            while toks[pos] != ")":
                n.append(one())
            pos += 1
            return n
        return t
    return one()
def show(n, ind=0):
    if not isinstance(n, list):
        return n
    flat = "(" + " ".join(show(c) for c in n) + ")"
    if len(flat) <= 110:
        return flat
    out = "("
    for i, c in enumerate(n):
        if i:
            out += " " if i == 1 and not isinstance(c, list) else "\n" + " " * (ind + 2)
        out += show(c, ind + 2)
    return out + ")"

class Runner:
    def __init__(self, exe, prop, scratch):
        self.exe, self.prop, self.scratch, self.n = exe, prop, scratch, 0
    def run_text(self, text):
        self.n += 1
        p = os.path.join(self.scratch, "c%d.%d.sx" % (os.getpid(), self.n % 4))
        with open(p, "w") as f:
            f.write(text)
        return self.run_file(p)
    def run_file(self, p):
        r = subprocess.run([self.exe, "run", self.prop, p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        try:
            return json.loads(r.stdout.strip().splitlines()[-1])
        except (IndexError, ValueError):
            return {"status": "error", "class": "", "msg": "no verdict", "loghash": ""}
    def gen(self, seed, tier):
        return subprocess.run([self.exe, "gen", self.prop, str(seed), str(tier)], stdout=subprocess.PIPE, text=True, check=True).stdout

def norm(cls, msg):
    """what makes two violations 'the same' while minimising"""
    if cls == "memory-error":
        ls = msg.split("\n")
        return cls + "|" + ls[0] + "|" + (ls[1].split(" ")[0] if len(ls) > 1 else "")
    if cls == "hang":
        return cls
    return cls + "|" + re.sub(r"[0-9]+", "#", msg)[:24]

SEQ = {"plan": 1, "prog": 1, "do": 1, "ls": 1, "set": 1, "faults": 1, "disk": 1, "chunks": 1, "draws": 1, "ops": 1, "seq": 1, "switches": 1, "actors": 1, "mods": 1, "lines": 1, "edits": 1, "h": 2, "interp": 1,
       "lam": 2, "fn": 3, "cells": 1, "values": 1, "entries": 1, "routes": 1, "e": 1, "damage": 1, "nats": 1, "host": 1}
def minimise(runner, text, want, budget_s, max_runs):
    t_end = time.time() + budget_s
    best = parse(text)
    runs = 0
    def ok(n):
        nonlocal runs
        runs += 1
        r = runner.run_text(show(n))
        return r["status"] == "violation" and norm(r["class"], r["msg"]) == want
    def lists(n, path=()):
        if isinstance(n, list):
            yield path, n
            for i, c in enumerate(n):
                yield from lists(c, path + (i,))
    def at(root, path):
        for i in path:
            root = root[i]
        return root
    def clone(n):
        return Node(clone(c) for c in n) if isinstance(n, list) else n
    changed = True
    while changed and time.time() < t_end and runs < max_runs:
        changed = False
        # delete runs of children of sequence nodes, biggest pieces first
        todo = sorted(((len(n), path) for path, n in lists(best) if n and not isinstance(n[0], list) and n[0] in SEQ), key=lambda x: -x[0])
        for _, path in todo:
            try:
                n = at(best, path)
            except IndexError:
                continue
            if not isinstance(n, list) or not n or isinstance(n[0], list) or n[0] not in SEQ:
                continue
            lo = SEQ[n[0]]
            step = max(1, (len(n) - lo) // 2)
            while step >= 1 and time.time() < t_end and runs < max_runs:
                i = lo
                while i < len(at(best, path)) and time.time() < t_end and runs < max_runs:
                    c = clone(best)
                    m = at(c, path)
                    if n[0] == "plan" and isinstance(m[i], list) and m[i] and m[i][0] in ("prog", "actors", "mods"):
                        i += 1; continue
                    del m[i:i + step]
                    if ok(c):
                        best = c; changed = True
                    else:
                        i += step
                step //= 2
        # replace a block by its statements, an expression by one of its operands or a small constant
        for path, n in list(lists(best)):
            if time.time() > t_end or runs >= max_runs:
                break
            try:
                n = at(best, path)
            except IndexError:
                continue
            if not isinstance(n, list) or not n or isinstance(n[0], list) or not path:
                continue
            h = n[0]
            par = at(best, path[:-1])
            cands = []
            if h in ("bin", "and", "or", "tern", "nn", "m", "call", "len", "ix", "sl", "not", "interp", "comp", "ls", "tb", "h") and not (isinstance(par, list) and par and par[0] in ("x", "disk")):
                cands = [Node(["i", "1"])] + [c for c in n[1:] if isinstance(c, list)][:2]
            elif h in ("while", "if", "for", "fori") and isinstance(par, list) and par and not isinstance(par[0], list) and par[0] in ("prog", "do"):
                cands = [c for c in n[1:] if isinstance(c, list) and c and c[0] == "do"][:1]
            for cd in cands:
                if show(cd) == show(n):
                    continue
                c = clone(best)
                at(c, path[:-1])[path[-1]] = clone(cd)
                if ok(c):
                    best = c; changed = True
                    break
    return show(best), runs

# ---------- known findings ----------
def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) plan=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append({"plan": m.group(2), "class": m.group(3), "what": m.group(4).strip()})
    return out

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        exe = build.build()
    except (RuntimeError, OSError) as e:
        print("BUILD FAILED: the tree under test does not build with the simulator\n" + str(e)[-4000:])
        return 2
    log("built", os.path.basename(exe))
    scratch = os.path.join(build.OUT, "scratch"); os.makedirs(scratch, exist_ok=True)
    rdir = os.path.join(build.OUT, "replay"); os.makedirs(rdir, exist_ok=True)
    runner = Runner(exe, prop, scratch)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        r = runner.run_file(f)
        print(json.dumps(r, indent=1))
        if r["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, f))
            return 1
        return 0
    ti = 1 if tier == "thorough" else 0
    runs, secs = cfg["thorough" if ti else "quick"]
    if os.environ.get("YSIM_SECS"):
        secs = float(os.environ["YSIM_SECS"])
    found = []          # confirmed violations: (seed, class, msg, replay path)
    # 1. known findings and committed replays
    known = known_findings(prop)
    kinfo = []
    for k in known:
        r = runner.run_file(os.path.join(HERE, k["plan"]))
        still = r["status"] == "violation" and r["class"] == k["class"]
        kinfo.append({"plan": k["plan"], "what": k["what"], "still_fails": still})
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        elif r["status"] == "violation":
            found.append((0, r["class"], r["msg"], os.path.join(HERE, k["plan"])))
    pdir = os.path.join(HERE, "plans", prop)
    kplans = {k["plan"] for k in known}
    nplans = 0
    if os.path.isdir(pdir):
        for f in sorted(os.listdir(pdir)):
            rel = os.path.join("plans", prop, f)
            if not f.endswith(".sx") or rel in kplans:
                continue
            nplans += 1
            r = runner.run_file(os.path.join(pdir, f))
            if r["status"] == "violation":
                r2 = runner.run_file(os.path.join(pdir, f))
                if r2["status"] == "violation" and r2["class"] == r["class"]:
                    found.append((0, r["class"], r["msg"], os.path.join(pdir, f)))
    # 2. seeded search
    nw = os.cpu_count() or 4
    per = (runs + nw - 1) // nw
    base = (seed * 1000003 + 17) & 0x7fffffff
    procs = [subprocess.Popen([exe, "batch", prop, str(ti), str(base), str(i), str(per), str(nw), str(secs), "24"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace") for i in range(nw)]
    tot = collections.Counter(); faults = collections.Counter(); frun = collections.Counter(); sigs = set(); edges = set(); viol = []; errs = []; samples = []; nguards = 0; batch_s = 0.0; dead = 0
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(nw) as ex:
        outs = list(ex.map(lambda p: p.communicate()[0], procs))
    for out in outs:
        st = None
        for l in out.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["ev"] == "stats":
                st = d
            elif d["ev"] == "violation":
                viol.append(d)
            elif d["ev"] == "error":
                errs.append(d)
        if st is None:
            dead += 1
            continue
        for k in ("runs", "discarded", "violations", "errors", "steps", "sim_us"):
            tot[k] += st[k]
        for k, v in st["faults"].items():
            faults[k] += v[0]; frun[k] += v[1]
        sigs.update(st["sigs"]); edges.update(st["edges"]); samples += st["samples"][:1]
        nguards = st["nguards"]; batch_s = max(batch_s, st["secs"])
    log("%d simulated runs in %.1f s, %d discarded, %d raised a violation, %d harness errors" % (tot["runs"], batch_s, tot["discarded"], tot["violations"], tot["errors"]))
    # 3. confirm, minimise, report
    seen = {}
    for v in sorted(viol, key=lambda d: d["seed"]):
        seen.setdefault(norm(v["class"], v["msg"]), []).append(v)
    unconfirmed = []
    order = sorted(seen.items(), key=lambda kv: -len(kv[1]))
    mt0 = time.time()
    for key, vs in order[:6]:
        done = False
        for v in vs[:3]:
            text = runner.gen(v["seed"], ti)
            rr = [runner.run_text(text) for _ in range(2)]
            if not all(r["status"] == "violation" and norm(r["class"], r["msg"]) == key for r in rr):
                unconfirmed.append(v); continue
            left = (60 if not ti else 240) - (time.time() - mt0)
            small, nr = minimise(runner, text, key, max(3, min(25, left)), 600)
            path = os.path.join(rdir, "%s-%d.sx" % (prop, v["seed"]))
            r = runner.run_text(small)
            if not (r["status"] == "violation" and norm(r["class"], r["msg"]) == key):
                small, r = text, rr[0]
            with open(path, "w") as f:
                f.write("; property %s seed %d tier %s\n; %s: %s\n" % (prop, v["seed"], tier, r["class"], r["msg"].replace("\n", "\n;   ")) + small + "\n")
            found.append((v["seed"], r["class"], r["msg"], path))
            done = True
            break
        if not done:
            log("not reproduced in a fresh process:", key)
    # determinism: sample seeds again in fresh processes
    det = []
    for s, hsh in samples[:8]:
        r = runner.run_text(runner.gen(s, ti))
        det.append(r["loghash"] == hsh)
    stxt = []
    for s, hsh in samples[:3]:
        t = runner.gen(s, ti)
        stxt.append({"seed": s, "plan": t[:1500], "loghash": hsh})
    wall = time.time() - T0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(found),
          "coverage": {
              "evaluations": tot["runs"] + nplans, "distinct_nontrivial": len(sigs),
              "rule": cfg["rule"] + " A run is non-trivial when it was not discarded and reached its final oracle; distinct ones are counted by a hash of the whole recorded execution (source, host-visible events, device operations, faults, statuses).",
              "samples": stxt, "discarded": tot["discarded"], "harness_errors": tot["errors"], "committed_plans": nplans, "unreproduced_violations": len(unconfirmed),
              "runs_per_hour": int(tot["runs"] / max(batch_s, .01) * 3600), "seeds_per_hour": int(tot["runs"] / max(batch_s, .01) * 3600),
              "simulated_time_s": round(tot["sim_us"] / 1e6, 3), "simulated_steps_edges": tot["steps"],
              "faults_injected": dict(sorted(faults.items())), "runs_with_fault": dict(sorted(frun.items())),
              "control_flow_edges_reached": len(edges), "control_flow_edges_total": nguards,
              "determinism_reruns": len(det), "determinism_identical": sum(det),
              "real_components": "compiler, virtual machine, containers, standard library, embedding interface and command-line front end, compiled from the current tree of /repo",
              "stubbed_components": "heap (tracked, ASan), files and standard streams (simulated device under real stdio buffering), rand/srand/time, exit, dynamic loader; host application = harness",
              "known_findings": kinfo},
          "assumptions": cfg.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s, c, m, p in found:
        print("violation seed=%s class=%s: %s" % (s, c, m[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    if found:
        return 1
    if errs or dead:
        for e in errs[:3]:
            print("HARNESS ERROR", e)
        print("harness errors: %d, dead workers: %d" % (tot["errors"], dead))
        return 2
    if tot["runs"] - tot["discarded"] < 20:
        print("too few usable runs"); return 2
    log("%s held on everything explored" % prop)
    return 0

if __name__ == "__main__":
    sys.exit(main())
