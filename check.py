#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property: extracts the functions under contract from /repo's current source into a Verus
file, lets Verus discharge every obligation, and turns the outcome into the interface of MANIFEST.json.
See DESIGN.md, "Verdicts".
"""
import concurrent.futures
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
EXTRACT = VERIF + "/.build/extract/debug/extract"
WITNESS = VERIF + "/.build/harness/debug/witness"
DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
            "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
            "decreases not satisfied", "unreachable", "possible bit shift", "recommendation not met")
RLIMIT = ("Resource limit (rlimit) exceeded", "rlimit")
t00 = time.time()


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd,
                           shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntimeout"


def build(what):
    rc, o, e = sh(["bash", VERIF + "/" + what + "/build.sh"], timeout=500)
    return rc, o + e


class Run:
    """one Verus file"""

    def __init__(self, tpl, scratch, spec, tier):
        self.tpl, self.scratch, self.spec, self.tier = tpl, scratch, spec, tier
        self.units = []          # extracted functions
        self.failed = {}         # unit name -> [messages]   (definite failures)
        self.undecided = {}      # unit name -> [reasons]
        self.stats = {}
        self.lemma_failures = []
        self.verified = 0
        self.checked_units = set()
        self.smt_ms = 0
        self.queries = {}
        self.raw = ""
        self.trusted = []

    def go(self):
        name = os.path.splitext(os.path.basename(self.tpl))[0]
        out = "%s/%s.rs" % (self.scratch, name)
        mp = "%s/%s.json" % (self.scratch, name)
        rc, o, e = sh([EXTRACT, VERIF + "/contracts/" + self.tpl, out, mp, REPO], timeout=120)
        if not os.path.exists(mp):
            self.undecided["extraction"] = ["extractor failed: " + (o + e)[-800:]]
            return
        m = json.load(open(mp))
        self.units = m["entries"]
        self.stats = m["stats"]
        for x in m["errors"]:
            key = x.split(": ")[0]
            self.undecided[key] = [x]
        src = open(out).read().split("\n")
        self.scan_trusted(src)
        prelude_lines = len(src)
        dropped = set()
        for attempt in range(12):
            open(out, "w").write("\n".join(src))
            ok = self.verus(name, out, src, dropped)
            if ok:
                break
        self.src = src

    def unit_at(self, line):
        for u in self.units:
            if u["start"] <= line <= u["end"]:
                return u
        return None

    def scan_trusted(self, src):
        txt = "\n".join(src)
        for m in re.finditer(r"external_body\]([^{;]*)", txt):
            s = m.group(1)
            f = re.search(r"\bfn\s+(\w+)", s) or re.search(r"struct\s+(\w+)", s)
            if f:
                self.trusted.append(("axiom " if "proof fn" in s else ("type " if "struct" in s and "fn" not in s else "fn ")) + f.group(1))
        for m in re.finditer(r"\b(admit|assume)\s*\(", txt):
            self.trusted.append("UNEXPECTED " + m.group(1))
        for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]*)\]", txt):
            self.trusted.append("std " + m.group(1).strip())

    def verus(self, name, out, src, dropped):
        rl = str(self.spec.get("rlimit", 40))
        cmd = ["verus", out, "--output-json", "--time-expanded", "--num-threads", "8", "--rlimit", rl,
               "--multiple-errors", "3", "--", "--error-format=json"]
        t = max(60, self.spec.get("timeout", 420))
        rc, o, e = sh(cmd, timeout=t, cwd=self.scratch)
        self.raw = e
        try:
            j = json.loads(o)
        except Exception:
            j = None
        diags = []
        for l in e.split("\n"):
            if l.startswith('{"$message_type"'):
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                if d["level"] == "error":
                    diags.append(d)
        if rc == 124 or j is None:
            for u in self.units:
                self.undecided.setdefault(u["name"], []).append("verifier gave no answer: " + e[-300:])
            return True
        vr = j.get("verification-results", {})
        definite, others = [], []
        for d in diags:
            m = d["message"]
            if m.startswith("aborting due to"):
                continue
            if any(m.startswith(x) for x in DEFINITE):
                definite.append(d)
            else:
                others.append(d)
        rl_ds = [d for d in others if any(x in d["message"] for x in RLIMIT)]
        comp = [d for d in others if d not in rl_ds]
        if comp:
            # the extracted text is outside the verifier's subset: set those functions aside and go on
            new = set()
            for d in comp:
                u = None
                for s in d["spans"]:
                    u = self.unit_at(s["line_start"])
                    if u:
                        break
                if u and u["name"] not in dropped:
                    new.add(u["name"])
                    self.undecided.setdefault(u["name"], []).append("outside the verifier's subset: " + d["message"][:300])
            if not new:
                why = "; ".join(d["message"][:200] for d in comp[:3])
                for u in self.units:
                    self.undecided.setdefault(u["name"], []).append("verifier error: " + why)
                return True
            for u in self.units:
                if u["name"] in new:
                    dropped.add(u["name"])
                    self.gut(src, u)
            return False
        for d in rl_ds:
            u = None
            for s in d["spans"]:
                u = u or self.unit_at(s["line_start"])
            self.undecided.setdefault(u["name"] if u else "lemma", []).append("resource limit exceeded")
        for d in definite:
            u = None
            for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                u = u or self.unit_at(s["line_start"])
            txt = d["message"] + ": " + " | ".join((s.get("label") or "") + " `" + " ".join(x["text"].strip() for x in s["text"][:3])[:160] + "`" for s in d["spans"][:3])
            if u:
                self.failed.setdefault(u["name"], []).append((txt, d.get("rendered", "")))
            else:
                self.lemma_failures.append(txt)
        self.verified = vr.get("verified", 0)
        try:
            for mod in j["times-ms"]["smt"]["smt-run-module-times"]:
                for f in mod.get("function-breakdown", []):
                    self.queries[f["function"]] = f
                    self.smt_ms += f["time"]
        except Exception:
            pass
        if not vr.get("success") and not diags and not vr.get("errors"):
            self.undecided.setdefault("verifier", []).append("verifier did not report success: " + e[-300:])
        return True

    def gut(self, src, u):
        """replace the body of a unit the verifier cannot read by an unverified one"""
        a, b = u["start"] - 1, u["end"] - 1
        # the body opens at a line that is exactly `{`
        for i in range(a, b + 1):
            if src[i].strip() == "pub fn" or re.match(r"\s*pub fn ", src[i]):
                src[i] = "#[verifier::external_body] " + src[i]
                break
        depth_line = None
        for i in range(a, b + 1):
            if src[i].startswith("{"):
                depth_line = i
                break
        if depth_line is None:
            return
        imp = any(src[i].startswith("impl") for i in range(a, depth_line))
        for i in range(depth_line, b + 1):
            src[i] = ""
        src[depth_line] = "{ unimplemented!() }" + (" }" if imp else "")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = json.load(open(VERIF + "/contracts/props.json"))[prop]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/.build/replay", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="luafmt-verif-")
    try:
        code = decide(prop, tier, seed, spec, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def witness(prop, seed, secs, mx=1):
    rc, o = build("harness")
    if rc != 0:
        return None, "the witness searcher did not build: " + o[-600:], 0
    try:
        p = subprocess.run([WITNESS, prop, str(seed), str(secs), str(mx)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=secs + 120)
        rc, out = p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode("utf8", "replace")
    ws = []
    for l in out.split("\n"):
        if l.startswith("{"):
            ws.append(json.loads(l))
    m = re.search(r"cases: (\d+)", out)
    if rc not in (0, 3) and not ws and os.path.isdir("/dev/shm"):
        note = "the witness searcher ended with %d" % rc
    else:
        note = ""
    return ws, note, int(m.group(1)) if m else 0


def known(prop):
    ks = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                ks.append(m.group(2))
    return ks


def decide(prop, tier, seed, spec, scratch):
    rc, o = build("extract")
    if rc != 0:
        print("extractor does not build:", o[-1500:])
        return 2
    runs = []
    for t in spec["templates"]:
        runs.append(Run(t["file"], scratch, t, tier))
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        list(ex.map(lambda r: r.go(), runs))
    want = lambda u: prop in u["props"].split(",") if u["props"] else bool(spec.get("all"))
    units, failed, undecided, queries = [], {}, {}, 0
    lemma, trusted, stats = [], [], {}
    smt_ms = 0
    for r in runs:
        names = {u["name"]: u for u in r.units}
        for u in r.units:
            if want(u):
                units.append((r.tpl, u))
        for n, ms in r.failed.items():
            if n not in names or want(names[n]):
                failed.setdefault(n, []).extend(ms)
        for n, ms in r.undecided.items():
            if n not in names or want(names[n]):
                undecided.setdefault(n, []).extend(ms)
        lemma += r.lemma_failures
        trusted += r.trusted
        smt_ms += r.smt_ms
        queries += r.verified
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
    for l in lemma:
        undecided.setdefault("template lemma", []).append(l)
    nun = len(units)
    bad = set(failed) | set(undecided)
    discharged = len([1 for _, u in units if u["name"] not in bad])
    obligations = nun + len([1 for n in bad if n not in {u["name"] for _, u in units}])

    fsecs = spec.get("witness_secs", 150)
    usecs = spec.get("bounded_secs", 60)
    viol, wit, searched, note = None, None, 0, ""
    if failed or undecided:
        secs = fsecs if failed else usecs
        left = 860 - (time.time() - t00) - 100
        secs = max(10, min(secs, left))
        for wp in spec.get("witness", [prop]):
            ws, note, n = witness(wp, seed, int(secs / len(spec.get("witness", [prop]))))
            searched += n
            if ws:
                wit = ws[0]
                break
    elif spec.get("witness", [prop]) and (tier == "thorough" or spec.get("outside")):
        # functions of this property that are not under contract: a bounded search stands in (never counted as proved)
        for wp in spec.get("witness", [prop]):
            ws, note, n = witness(wp, seed, 240 if tier == "thorough" else spec.get("outside_secs", 25))
            searched += n
            if ws:
                wit = ws[0]
                break
    exit_code = 0
    replay = "%s/.build/replay/%s.json" % (VERIF, prop)
    if wit is not None or failed:
        rep = {"property": prop, "failed_obligations": {n: [m[0] for m in ms] for n, ms in failed.items()},
               "undischarged": undecided, "verifier_output": {n: [m[1] for m in ms] for n, ms in failed.items()},
               "witness": wit, "cases_searched": searched, "note": note,
               "how_to_replay": "write `source` to a file and run the luafmt binary of /repo on it with `options` (--name value), or "
                                "run `%s %s %d SECS` again" % (WITNESS, prop, seed)}
        json.dump(rep, open(replay, "w"), indent=1)
        for n, ms in list(failed.items())[:8]:
            print("obligation failed: %s: %s" % (n, ms[0][0][:400]))
        if wit is not None:
            print("witness: %s" % json.dumps(wit)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        exit_code = 1
    else:
        for n, ms in undecided.items():
            print("undischarged (bounded search instead, %d cases, no violation): %s: %s" % (searched, n, ms[0][:300]))
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    tb = sorted(set(trusted))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "proof"),
          "coverage": {
              "obligations": obligations, "discharged": discharged,
              "checker_cmd": "; ".join("verus %s --rlimit %s (extracted from %s/contracts/%s)" % (r.tpl, r.spec.get("rlimit", 40), VERIF, r.tpl) for r in runs),
              "trusted_base": tb + spec.get("assumptions", []),
              "explanation": "one obligation unit per function, match arm or grammar production under contract; each is the set of "
                             "postcondition, callee-precondition, loop-invariant, termination and arithmetic conditions Verus generates for it. "
                             "The back end is the SMT solver bundled with Verus (Z3).",
              "functions_under_contract": ["%s (%s:%s)" % (u["name"], u["file"], u["line"]) for _, u in units],
              "verifier_queries_accepted": queries,
              "solver_time_ms": smt_ms,
              "undischarged": {n: ms[0][:400] for n, ms in undecided.items()},
              "failed": {n: [m[0][:400] for m in ms] for n, ms in failed.items()},
              "bounded_cases_searched": searched,
              "extraction": stats,
              "not_under_contract": spec.get("outside", [])},
          "wall_s": round(time.time() - t00, 1)}
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    print("%s: %d/%d obligation units discharged, %d verifier queries, %.1f s" % (prop, discharged, obligations, queries, time.time() - t00))
    return exit_code


main()
