#!/usr/bin/env python3
"""check.py <property> [--thorough]

Decides one property of the crate in /repo:
  1. extracts the functions the property depends on from /repo's current source, attaches the
     contracts in contracts/ and lets Verus discharge every obligation (unbounded);
  2. runs the bounded cross-check in harness/ against the real crate, which also searches for
     a failing input when an obligation is not discharged.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
from concurrent.futures import ThreadPoolExecutor
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
REPO = "/repo"
SRC = REPO + "/src"
B = os.path.join(HERE, "build")
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
MEM = 12 << 30
EXP_LEMMAS = ("vspec::lem_softmax_unit", "vspec::lem_softmax_order", "lemmas::lem_fwd_sim", "lemmas::lem_infer_sim")
EXP_AXIOMS = ("ax_exp_unit", "ax_exp_zero", "ax_sim_exp", "ax_neg0_exp", "ax_exp_mono", "ax_powi2")
CLIENTS = "07_clients.vrs"
# internal steps nothing outside the crate can call: when one is gone (merged into its callers, renamed and inlined), its callers' contracts say it all
PRIVATE = ("check_matrix_multiply_dimensions", "update_gradient_and_intermediate_tensors", "populate_network", "to_byte_array")

def sh(cmd, timeout, env=None, mem=None, cwd=HERE):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=cwd, env=e, preexec_fn=pre, text=True, errors="replace")
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, er = p.communicate()
        return None, o, er

# ------------------------------------------------------------------ builds
def build_extract():
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--quiet", "--manifest-path", HERE + "/extract/Cargo.toml"], 400, {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "0", "CARGO_TARGET_DIR": B + "/extract"})
    if rc != 0: return None, "extractor does not build: " + e[-2000:]
    return B + "/extract/release/extract", None
def build_harness():
    """with the hooks; without them when the hooked crate does not compile"""
    err = ""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.dirname(SRC))):
        ds[:] = [x for x in ds if x not in (".git", "target")]
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")): h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    for flags, hooks in (("--cfg verif_hooks", True), ("", False)):
        # cargo goes by modification times; a source file with an old time must be seen too
        t = B + ("/harness" if hooks else "/harness_nohooks"); stamp = t + "/source.sha256"
        try: seen = open(stamp).read()
        except OSError: seen = ""
        if seen != h.hexdigest():
            for g in glob.glob(t + "/release/.fingerprint/rusty_network-*"): shutil.rmtree(g, ignore_errors=True)
        os.makedirs(t, exist_ok=True); open(stamp, "w").write(h.hexdigest())
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "--quiet"], 400, {"RUSTFLAGS": flags, "CARGO_TARGET_DIR": B + ("/harness" if hooks else "/harness_nohooks")}, cwd=HERE + "/harness")
        if rc == 0: return B + ("/harness" if hooks else "/harness_nohooks") + "/release/harness", hooks, ""
        err += e[-3000:]
    return None, False, err
def literals():
    """numbers in the source: candidate special cases for the search"""
    out = set()
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if not f.endswith(".rs"): continue
            t = open(os.path.join(d, f), errors="replace").read()
            i = t.find("#[cfg(test)]")
            if i >= 0: t = t[:i]
            t = re.sub(r"//[^\n]*", "", t)
            for w in re.findall(r"(?<![\w.])(?:0x[0-9a-fA-F_]+|[0-9][0-9_]*(?:\.[0-9_]+)?(?:[eE][+-]?[0-9]+)?)", t):
                w = w.replace("_", "")
                out.add(str(int(w, 16)) if w.startswith("0x") else w)
            for a, s in re.findall(r"(\d+)(?:u32|usize|u64)?\s*<<\s*(\d+)", t):
                if int(s) < 64: out.add(str(int(a) << int(s)))
    return sorted(out)

# ------------------------------------------------------------------ deductive part
class Proof:
    def __init__(self, prop):
        self.prop, self.p = prop, PROPS[prop]
        self.dir = os.path.join(B, "run", prop)
        os.makedirs(self.dir, exist_ok=True)
        self.notes, self.alias, self.alts, self.stub, self.skip = [], {}, {}, {}, []
        self.wall = 0.0
    def extract(self, name, *args):
        out, meta = os.path.join(self.dir, name + ".rs"), os.path.join(self.dir, name + ".json")
        cmd = [self.x, SRC, HERE + "/contracts", out, meta, *args]
        if self.alias: cmd += ["--alias", ",".join(f"{a}={b}" for a, b in self.alias.items())]
        if self.alts: cmd += ["--alts", ",".join(f"{a}={b}" for a, b in self.alts.items())]
        if self.stub: cmd += ["--stub", ",".join(self.stub)]
        if self.skip: cmd += ["--skip", ",".join(self.skip)]
        rc, o, e = sh(cmd, 60)
        if rc != 0: return None
        return out, json.load(open(meta))
    def aliases(self, m):
        """contracts whose function is gone, functions that have none: moved or renamed"""
        fns = {f["path"]: f for f in m["functions"]}
        free = [f for f in m["functions"] if not f["contract"] and f["has_body"]]
        last = lambda p: re.split(r"::|\.", p)[-1]
        own = lambda p: p[:len(p) - len(last(p))]
        for miss in m["missing"]:
            ar = m["contract_arity"].get(miss)
            arity = lambda f: 0 if not f["sig"] else len(f["sig"].split(","))
            c = [f for f in free if last(f["path"]) == last(miss) and arity(f) == ar] or [f for f in free if own(f["path"]) == own(miss) and arity(f) == ar]
            if len(c) == 1:
                self.alias[c[0]["path"]] = miss
                free.remove(c[0])
                self.notes.append(f"contract of {miss} attached to {c[0]['path']}")
    def next_alt(self, f):
        """another way of writing the loops that the contract files know"""
        n = self.alts.get(f["path"], 0) + 1
        if n >= f.get("alts", 0): return False
        self.alts[f["path"]] = n
        return True
    def closure(self, m, roots):
        by = {}
        for f in m["functions"]: by.setdefault(re.split(r"::|\.", f["path"])[-1], []).append(f)
        paths = {f["path"]: f for f in m["functions"]}
        # operators and conversions that are written without naming their function
        todo, seen = [r for r in roots if r in paths], set()
        while todo:
            p = todo.pop()
            if p in seen: continue
            seen.add(p)
            for c in paths[p]["callees"]:
                for f in by.get(re.split(r"::|\.", c)[-1], []): todo.append(f["path"])
        return seen
    def verus(self, out, rlimit, extra=()):
        t = time.time()
        rc, o, e = sh(["verus", out, "--rlimit", str(rlimit), "--num-threads", "8", "--output-json", "--time-expanded", "--error-format=json", *extra], max(60, min(300, 560 - (time.time() - T0))), cwd=self.dir)
        self.wall += time.time() - t
        try: j = json.loads(o[o.index("{"):])
        except Exception: j = {}
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try: diags.append(json.loads(l))
                except Exception: pass
        br = {}
        for mod in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                k = f["function"].replace("out::", "", 1) if f["function"].startswith("out::") else f["function"].split("::", 1)[-1]
                r = br.setdefault(k, dict(ok=True, ms=0, rl=0, n=0))
                r["ok"] = r["ok"] and bool(f["success"]); r["ms"] += f.get("time", 0); r["rl"] += f.get("rlimit", 0); r["n"] += 1
        vr = j.get("verification-results", {})
        return dict(br=br, diags=diags, vr=vr, rc=rc, stderr=e, timeout=rc is None)
    @staticmethod
    def key(path): return path.replace(".", "::")
    def at(self, m, line):
        for f in m["functions"]:
            if f["start"] <= line <= f["end"]: return f
        return None
    def run(self, thorough):
        """-> dict(status=..., ...)"""
        self.x, err = build_extract()
        if err: return dict(status="unavailable", why=err)
        r = self.extract("all")
        if r is None: return dict(status="unavailable", why="source does not parse")
        m = r[1]
        if m["missing"]:
            self.aliases(m)
            if self.alias: r = self.extract("all"); m = r[1]
        roots = [p for p in self.p["own"]] + [a for a, b in self.alias.items() if b in self.p["own"]]
        gone = [p for p in self.p["own"] if p in m["missing"]]
        for tries in range(12):
            clo = self.closure(m, roots)
            only = os.path.join(self.dir, "only.txt")
            open(only, "w").write("\n".join(sorted(clo)))
            r = self.extract("out", "--only", "@" + only)
            if r is None: return dict(status="unavailable", why="extraction failed")
            out, mm = r
            v = self.verus(out, 100)
            if v["br"] or v["timeout"]: break
            # the verifier rejects something: take the body away from the function it names
            bad, clients = set(), False
            for d in v["diags"]:
                if d.get("level") != "error": continue
                for s in d.get("spans", []):
                    clients = clients or any(p["file"] == CLIENTS and p["start"] <= s["line_start"] <= p["end"] for p in mm["prelude"])
                    f = self.at(mm, s["line_start"])
                    if f and f["has_body"] and not f["stubbed"] and (s["line_start"] > f["spec_end"] or not f["contract"]):
                        if f["path"] not in bad and not self.next_alt(f): self.stub.setdefault(f["path"], d["message"][:200])
                        bad.add(f["path"])
            if not bad and clients and not self.skip:
                self.skip.append(CLIENTS); self.notes.append("client programs left out: the verifier rejects them with this source"); continue
            if not bad: return dict(status="unavailable", why="verifier rejects the file: " + "; ".join(d["message"][:200] for d in v["diags"] if d.get("level") == "error")[:800], meta=mm)
        else: return dict(status="unavailable", why="verifier rejects the file", meta=mm)
        if v["timeout"]: return dict(status="unavailable", why="verifier ran out of time", meta=mm)
        # a proof found with another seed is a proof
        failed = [k for k, x in v["br"].items() if not x["ok"]]
        retried = {}
        if failed:
            again = [f["path"] for f in mm["functions"] if self.key(f["path"]) in failed]
            # the loops may be written in another way the contract files know
            before, n = dict(self.alts), 0
            fs = [f for f in mm["functions"] if f["path"] in again]
            most = max([f.get("alts", 0) for f in fs] or [0])
            groups = [(k, g) for k in range(1, most) for g in [[f["path"] for f in fs if before.get(f["path"], 0) < k < f.get("alts", 0)]] if g]
            w = self.wall; t = time.time()
            while groups and n < 48:
                jobs = []
                for k, g in groups:
                    self.alts = {**before, **{p: k for p in g}}; n += 1
                    o2 = os.path.join(self.dir, f"alt{n}.txt"); open(o2, "w").write("\n".join(g))
                    r2 = self.extract(f"alt{n}", "--only", "@" + o2)
                    if r2: jobs.append((k, g, r2[0]))
                self.alts = dict(before)
                with ThreadPoolExecutor(6) as ex: got = list(ex.map(lambda j: self.verus(j[2], 100), jobs))
                groups = []
                for (k, g, _), v2 in zip(jobs, got):
                    # one function's text can make the verifier reject the whole file
                    if not v2["br"] and len(g) > 1: groups += [(k, [p]) for p in g]
                    for p in g:
                        x = v2["br"].get(self.key(p))
                        if x and x["ok"] and p in again: v["br"][self.key(p)] = x; again.remove(p); before[p] = self.alts[p] = k; retried[p] = "other loop order or structure"
                groups = [(k, [p for p in g if p in again]) for k, g in groups]; groups = [x for x in groups if x[1]]
            self.wall = w + time.time() - t
            for rl, opt, ex in ((200, ("--smt-option", "smt.random_seed=7"), ()), (200, ("--smt-option", "smt.random_seed=11"), ("--comm",)), (300, ("--smt-option", "smt.random_seed=23"), ())):
                if not again or time.time() - T0 > 400: break
                o2 = os.path.join(self.dir, "again.txt"); open(o2, "w").write("\n".join(again))
                r2 = self.extract("again", "--only", "@" + o2, *ex)
                if not r2: break
                v2 = self.verus(r2[0], rl, opt)
                if not v2["br"]: break
                for p in list(again):
                    x = v2["br"].get(self.key(p))
                    if x and x["ok"]: v["br"][self.key(p)] = x; again.remove(p); retried[p] = " ".join((opt[1],) + ex)
                v["diags2"], m2 = v2["diags"], r2[1]
            failed = [k for k, x in v["br"].items() if not x["ok"]]
        res = dict(status="ran", meta=mm, closure=clo, v=v, failed=failed, retried=retried, gone=gone)
        # vacuity: with the body `assert(false)` every contract in the closure must fail
        rp = self.extract("probe", "--only", "@" + only, "--mode", "probe") if time.time() - T0 < 450 else None
        if rp:
            vp = self.verus(rp[0], 20)
            res["vacuous"] = [f["path"] for f in rp[1]["functions"] if f["contract"] and f["has_body"] and not f["stubbed"] and vp["br"].get(self.key(f["path"]), {}).get("ok", False)]
            res["probed"] = sum(1 for f in rp[1]["functions"] if f["contract"] and f["has_body"] and not f["stubbed"])
        return res
    def describe(self, res, path):
        """the verifier's words about one function"""
        f = next(x for x in res["meta"]["functions"] if x["path"] == path)
        out = []
        for d in res["v"]["diags"]:
            if d.get("level") != "error": continue
            if any(f["start"] <= s["line_start"] <= f["end"] for s in d.get("spans", [])) :
                out.append(dict(obligation=d["message"], where=[dict(label=s.get("label"), text=[t["text"].strip() for t in s.get("text", [])]) for s in d.get("spans", [])]))
        return out

# ------------------------------------------------------------------ bounded part
class Search:
    def __init__(self, prop, exe): self.prop, self.exe = prop, exe; self.dir = os.path.join(B, "run", prop); os.makedirs(self.dir, exist_ok=True)
    def run(self, secs, seed):
        lits = os.path.join(self.dir, "lits"); open(lits, "w").write(" ".join(literals()))
        tr = os.path.join(self.dir, "trace")
        rc, o, e = sh([self.exe, self.prop, "--seed", str(seed), "--secs", str(secs), "--lits", lits, "--trace", tr], secs * 3 + 120, mem=MEM, cwd=self.dir)
        try: j = json.loads(o.strip().splitlines()[-1])
        except Exception:
            cur = open(tr).read().strip() if os.path.exists(tr) else "?"
            j = dict(evaluations=0, distinct_nontrivial=0, samples=[], failure=dict(case=cur, input="", what=("does not finish" if rc is None else f"the process dies (exit status {rc})") + ": " + e[-500:]))
            if rc is not None and cur and cur != "?":
                # once more on its own: only a repeatable crash counts
                rc2, o2, _ = sh([self.exe, self.prop, "--seed", str(seed), "--secs", str(secs), "--lits", lits, "--only", cur], 120, mem=MEM, cwd=self.dir)
                if rc2 == 0: j["failure"] = None
        j["seed"], j["secs"] = seed, secs
        return j

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    thorough = tier == "thorough"
    os.makedirs(B, exist_ok=True)
    box = {}
    def prove():
        try: pr = Proof(prop); box["pr"] = pr; box["res"] = pr.run(thorough)
        except Exception as ex: box["res"] = dict(status="unavailable", why="driver: %r" % ex)
    th = threading.Thread(target=prove); th.start()
    sh(["python3", HERE + "/float_axioms.py"], 60)
    exe, hooks, herr = build_harness()
    runs = []
    if exe:
        s = Search(prop, exe)
        runs.append(s.run(90 if thorough else 5, SEED))
        if thorough and not runs[0]["failure"]:
            for k in range(3): 
                runs.append(s.run(40, SEED * 1000 + k + 1))
                if runs[-1]["failure"]: break
    th.join()
    res = box["res"]
    if exe and (thorough or prop in ("C13", "C22")) and any("exp" in l or l in EXP_LEMMAS for l in PROPS[prop]["lemmas"]):
        rc, o, e = sh([exe, "exp-axioms"], 200)
        try: j = json.loads(o); box["exp"] = j; json.dump(j, open(B + "/exp.json", "w"))
        except Exception: pass
    own = set(PROPS[prop]["own"])
    rep = os.path.join(B, "replays"); os.makedirs(rep, exist_ok=True)
    replay = os.path.join(rep, prop + ".json")
    fail = next((r["failure"] for r in runs if r["failure"]), None)
    undecided, broken = [], []
    if res["status"] == "ran":
        pr = box["pr"]
        mm = res["meta"]
        alias = pr.alias
        bykey = {pr.key(f["path"]): f for f in mm["functions"]}
        names = {}
        for f in mm["functions"]: names.setdefault(re.split(r"::|\.", f["path"])[-1], []).append(f)
        for f in mm["functions"]:
            if f["path"] in res["closure"] and f["has_body"] and f["stubbed"]:
                undecided.append(dict(function=f["path"], why=pr.stub.get(f["path"]) or "; ".join(f["lost"])))
            elif f["path"] in res["closure"] and f["has_body"] and not f["contract"]:
                undecided.append(dict(function=f["path"], why="no contract"))
        for g in res["gone"]:
            if g in mm["missing"] and g.rsplit(".", 1)[-1] not in PRIVATE: undecided.append(dict(function=g, why="not found in the source"))
        for k in res["failed"]:
            f = bykey.get(k)
            if not f:
                if k in PROPS[prop]["lemmas"] or not k.startswith("clients::"): undecided.append(dict(function=k, why="lemma not discharged"))
                continue
            d = pr.describe(res, f["path"])
            limit = any("rlimit" in x["obligation"].lower() or "resource limit" in x["obligation"].lower() for x in d)
            # a callee nothing is known about, or a construct the extractor could not follow
            weak = [c for c in f["callees"] for g in names.get(re.split(r"::|\.", c)[-1], []) if not g["contract"] or g["lost"] or g["path"] in pr.stub]
            if f["path"] not in own and alias.get(f["path"]) not in own: undecided.append(dict(function=f["path"], why="obligation of a callee not discharged (another property's)", detail=d))
            elif limit: undecided.append(dict(function=f["path"], why="resource limit", detail=d))
            elif weak: undecided.append(dict(function=f["path"], why="calls functions without contract: " + ", ".join(sorted(set(weak))), detail=d))
            elif f.get("alt"): undecided.append(dict(function=f["path"], why="loops written in another way", detail=d))
            elif f["path"] in alias: undecided.append(dict(function=f["path"], why="contract attached by guess", detail=d))
            else: broken.append(dict(function=f["path"], source=f"{f['file']}:{f['line']}", obligations=d))
        if pr.skip and any(l.startswith("clients::") for l in PROPS[prop]["lemmas"]): undecided.append(dict(function="clients", why=pr.notes[-1]))
        for p in res.get("vacuous", []): undecided.append(dict(function=p, why="precondition is contradictory"))
        if mm["missing"]: undecided += [dict(function=p, why="not found in the source") for p in mm["missing"] if p in own and p not in res["gone"] and p.rsplit(".", 1)[-1] not in PRIVATE]
    else: undecided.append(dict(function="*", why=res["why"]))
    if not fail and exe and (broken or undecided) and not (undecided and not broken and all(u["why"] in ("resource limit",) for u in undecided)):
        # look harder for an input that shows it
        for k, secs in enumerate((25, 25, 25) if broken else (10, 10)):
            r = Search(prop, exe).run(secs, SEED * 77 + k + 5); runs.append(r)
            if r["failure"]: fail = r["failure"]; break
    code = 0
    failed_run = next((r for r in runs if r["failure"]), None)
    if fail:
        code = 1
        json.dump(dict(property=prop, failing_case=fail["case"], input=fail["input"], what=fail["what"], seed=failed_run["seed"], undischarged=broken + undecided,
                       replay_cmd=f"{exe} {prop} --seed {failed_run['seed']} --secs {failed_run['secs']} --lits {os.path.join(B, 'run', prop, 'lits')} --only {fail['case']}"), open(replay, "w"), indent=1)
        print(f"{prop}: {fail['case']} {fail['what'][:400]}\n  input: {fail['input'][:600]}")
        for b in broken: print(f"  obligation not discharged: {b['function']} ({b['source']}): " + "; ".join(o["obligation"] for o in b["obligations"]))
        print(f"VIOLATION property={prop} replay={replay}")
    elif broken:
        code = 1
        json.dump(dict(property=prop, failed_obligations=broken, verifier_output=[d.get("rendered", d["message"]) for d in res["v"]["diags"] if d.get("level") == "error"], searched=[dict(seed=r["seed"], secs=r["secs"], evaluations=r["evaluations"]) for r in runs]), open(replay, "w"), indent=1)
        for b in broken: print(f"{prop}: obligation not discharged: {b['function']} ({b['source']}): " + "; ".join(o["obligation"] for o in b["obligations"]))
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    if not exe:
        print("the crate does not build with the harness:\n" + herr, file=sys.stderr)
        code = 2 if code == 0 and (undecided or res["status"] != "ran") else code
    evidence(prop, tier, res, box.get("pr"), box.get("exp"), runs, hooks, undecided, broken, fail, code)
    for u in undecided: print(f"{prop}: undecided by proof, bounded check only: {u['function']}: {u['why'][:200]}")
    sys.exit(code)

def scan_assumptions(exp):
    """everything assumed: mechanical scan of the contract files"""
    out = []
    try: fp = json.load(open(B + "/fp/result.json"))
    except Exception: fp = {}
    for f in sorted(os.listdir(HERE + "/contracts")):
        for l in open(os.path.join(HERE, "contracts", f)):
            l = l.strip()
            if re.search(r"\baxiom fn\b|\bassume_specification\b|external_body|\badmit\(|\bassume\(|uninterp spec", l) and not l.startswith("//"):
                n = re.search(r"(?:axiom fn|assume_specification|pub fn|spec fn)\s*\[?([\w:<>]+)", l)
                n = n.group(1) if n else l[:80]
                kind = {"unsat": "proved for all binary32 values by float_axioms.py", "sat": "REFUTED by float_axioms.py"}.get(fp.get(n), "assumed, not decided by the solvers") if "[fp]" in l else {"unsat": "proved for all binary32 values in Rocq with Flocq (contracts/float_facts.v)"}.get(fp.get(n), "assumed, not proved by Rocq") if "[flocq]" in l else "assumed"
                if n in EXP_AXIOMS: kind = ("REFUTED on all floats" if any(x.startswith(n) for x in exp["refuted"]) else "checked on all %d values of this machine's exp and powi" % exp["checked"]) if exp else "assumed here; the checks of C13 and C22 and the thorough tier try all 2^32 values"
                out.append((f, kind, n))
    return out

def evidence(prop, tier, res, pr, exp, runs, hooks, undecided, broken, fail, code):
    cov = {}
    ev = sum(r["evaluations"] for r in runs); dn = max([r["distinct_nontrivial"] for r in runs] or [0])
    cov["evaluations"], cov["distinct_nontrivial"] = ev, dn
    cov["rule"] = "bounded cross-check on the real crate (never counted as proved): enumerated small cases and random cases fixed by the seed, compared with a reference written from the property; non-trivial: reaches the compared result (not rejected up front); distinct: by the full input"
    cov["samples"] = [x for r in runs for x in r["samples"]][:4] or ["none"]
    cov["bounded_runs"] = [dict(seed=r["seed"], seconds=r["secs"], evaluations=r["evaluations"]) for r in runs]
    cov["hooks_enabled"] = hooks
    proved = res["status"] == "ran" and not undecided and not broken
    ass = []
    if res["status"] == "ran":
        mm, v = res["meta"], res["v"]
        own = PROPS[prop]["own"]
        fl = []
        for f in mm["functions"]:
            if f["path"] not in res["closure"] or not f["has_body"]: continue
            x = v["br"].get(pr.key(f["path"]))
            fl.append(dict(function=f["path"], source="" if f["generated"] else f"{os.path.relpath(f['file'], REPO)}:{f['line']}", contract=f["contract"], own=f["path"] in own, requires=f["requires"], ensures=f["ensures"], loops=f["loops"], status="stubbed" if f["stubbed"] else "no contract" if not f["contract"] else "discharged" if (x is None or x["ok"]) else "failed", ms=round(x["ms"], 1) if x else 0, rlimit=x["rl"] if x else 0))
        fnk = {pr.key(f["path"]) for f in mm["functions"]}
        lem = [dict(lemma=k, property_lemma=k in PROPS[prop]["lemmas"], status="discharged" if x["ok"] else "failed", ms=round(x["ms"], 1)) for k, x in v["br"].items() if k not in fnk]
        cov["obligations"] = len(v["br"])
        cov["discharged"] = sum(1 for x in v["br"].values() if x["ok"])
        cov["obligation_rule"] = "one per function or lemma Verus sends to the solver: all its postconditions, callee preconditions, loop invariants, overflow, index and termination conditions"
        cov["clauses"] = dict(requires=sum(x["requires"] for x in fl), ensures=sum(x["ensures"] for x in fl), loops=sum(x["loops"] for x in fl))
        cov["checker_cmd"] = f"extract {SRC} contracts out.rs out.json --only <closure of {prop}> && verus out.rs --rlimit 100 --num-threads 8"
        cov["back_end"] = "Verus 0.2026.09.13 with its z3"
        cov["solver_ms"] = round(sum(x["ms"] for x in v["br"].values()))
        cov["verifier_wall_s"] = round(pr.wall, 1)
        cov["functions"] = fl
        cov["lemmas"] = lem
        cov["missing_lemmas"] = [l for l in PROPS[prop]["lemmas"] if l not in v["br"]]
        cov["vacuity_probe"] = dict(probed=res.get("probed", 0), contradictory=res.get("vacuous", []))
        cov["extraction_normalisations"] = mm["normalisations"]
        cov["inlined_helpers"] = mm["inlined"]
        cov["serde_facts_read_from_source"] = mm["serde_facts"]
        cov["retried_with_other_seed"] = res["retried"]
        cov["samples"] = cov["samples"] + [f"{x['function']}: {x['requires']} requires, {x['ensures']} ensures, {x['loops']} loops: {x['status']}" for x in fl if x["own"]][:4]
    else:
        cov["proof_unavailable"] = res["why"]
    a = scan_assumptions(exp)
    cov["trusted_base"] = ["Verus and z3", "the extractor (extract/): drops tests, attributes, visibility and hooks; expands derive(Clone), compound assignments, iterator loops into index loops, reversed ranges, ?, operator calls; boxed errors become opaque; functions without contract inlined at their calls; closures over iterators and counting while loops to index loops; assertion macros to branches that must not be taken; output macros dropped; renamed fields and functions matched to their contracts", "rustc compiles the same source text"] + [f"{f}: {n} ({k})" for f, k, n in a]
    ass = ["machine floats: operations are uninterpreted functions (so results are exact to the operation and its order); all NaNs count as one value; only the listed facts about them are assumed",
           "usize is 64 bits", "std, rand, serde and bincode behave as the listed contracts say", "files: a read returns arbitrary bytes; that a successful write can be read back is the file system's"]
    if any("REFUTED" in k for _, k, _ in a): undecided.append(dict(function="float axioms", why="an assumed fact about floats is refuted")); proved = False
    cov["undecided_by_proof"] = undecided
    cov["broken"] = broken
    cov["label"] = "proved: every obligation of the functions under contract discharged" if proved else "violation" if code == 1 else "BOUNDED ONLY for the functions listed in undecided_by_proof; the rest discharged"
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=SEED, level="proof" if (proved or code == 1) and "obligations" in cov else "exploration", coverage=cov, assumptions=ass, wall_s=round(time.time() - T0, 1), violations=1 if code == 1 else 0), open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)

if __name__ == "__main__": main()
