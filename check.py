#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property of /repo.

1. lift: the functions of /repo/src under contract become one Verus file (build/<PROP>/all.rs).
2. Verus discharges every obligation of every function and lemma the property rests on.
3. A failed obligation, or a function out of the verifier's reach, starts the bounded search over
   grammars and inputs on the real code (search/); it also runs briefly as a cross-check of the
   trusted parts when everything was discharged.
Exit 0: held (evidence says how far); 1: VIOLATION; 2: no answer.  See DESIGN.md.
"""
import json, os, re, resource, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DIR = f"{ROOT}/build/{PROP}"
os.makedirs(DIR, exist_ok=True)
os.makedirs(f"{ROOT}/evidence", exist_ok=True)
CONF = json.load(open(f"{ROOT}/contracts/props.json"))
P = CONF["properties"][PROP]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
LIMIT = 840  # seconds for the whole check


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def left():
    return LIMIT - (time.time() - T0)


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           errors="replace", env=ENV, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return None, d(e.stdout), d(e.stderr)


def build(name, timeout=300):
    tgt = f"{ROOT}/build/{name}"
    rc, o, e = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{ROOT}/{name}/Cargo.toml",
                    "--target-dir", tgt], timeout)
    exe = f"{tgt}/debug/{name}"
    return (exe if rc == 0 and os.path.exists(exe) else None), (o + e)[-3000:]


# ---------------------------------------------------------------------------------------- proof

def preludes():
    d = f"{ROOT}/contracts"
    return [f"{d}/prelude.rs"] + sorted(f"{d}/{f}" for f in os.listdir(d) if re.match(r"t\d.*\.rs$", f))


def contracts():
    d = f"{ROOT}/contracts"
    return sorted(f"{d}/{f}" for f in os.listdir(d) if f.endswith(".vc"))


def contract_keys():
    for f in contracts():
        for l in open(f):
            if l.startswith("@@ fn "):
                ws = l.split()[2:]
                gs = {g for w in ws if w.startswith("group=") for g in w[6:].split(",")}
                for w in ws:
                    if not w.startswith("group="):
                        yield w, gs


CANARY = """
// Reachability: every one of these must FAIL; a success would mean that an axiom or a standing
// precondition is contradictory.
proof fn canary_axioms() ensures false { }
"""


class Lifted:
    """One lifted file with its line -> function map."""

    def __init__(self, lift, stubs):
        self.path = f"{DIR}/all.rs"
        cmd = [lift, "--src", f"{REPO}/src", "--out", self.path, "--report", f"{DIR}/lift.txt",
               "--baseline", f"{ROOT}/contracts/baseline.txt"]
        for f in preludes():
            cmd += ["--prelude", f]
        for f in contracts():
            cmd += ["--contract", f]
        for s in stubs:
            cmd += ["--stub", s]
        rc, o, e = run(cmd, 120)
        self.ok = rc == 0
        self.err = (o + e)[-2000:]
        self.fns, self.stubbed, self.unsupported, self.lost, self.inlined, self.uncontracted = {}, [], {}, {}, [], []
        if not self.ok:
            return
        for l in open(f"{DIR}/lift.txt"):
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "FN":
                m = re.match(r"(\S+) (\S+) group=(\S*)", v)
                self.fns[m[1]] = dict(where=m[2], groups=[g for g in m[3].split(",") if g])
            elif k == "STUBBED":
                self.stubbed.append(v)
            elif k in ("UNSUPPORTED", "LOST"):
                f, _, why = v.partition(": ")
                (self.unsupported if k == "UNSUPPORTED" else self.lost).setdefault(f, []).append(why)
            elif k == "INLINED":
                self.inlined.append(v)
            elif k == "UNCONTRACTED":
                self.uncontracted.append(v)
        text = open(self.path).read()
        end = text.rindex("} // verus!")
        text = text[:end] + "//@canary\n" + CANARY + text[end:]
        open(self.path, "w").write(text)
        self.lines = []  # line number -> ("fn", key) | ("th", module) | None
        cur = None
        mod = "model"
        for l in text.split("\n"):
            if l.startswith("//@fn "):
                cur = ("fn", l[6:].strip())
            elif l.startswith("//@end"):
                cur = None
            elif l.startswith("//@canary"):
                cur = ("canary", "")
            m = re.match(r"(?:pub )?mod (\w+)\s*\{", l)
            if m and cur is None:
                mod = m[1]
            self.lines.append(cur or ("th", mod))
        self.text = text

    def at(self, line):
        return self.lines[line - 1] if 0 < line <= len(self.lines) else ("th", "?")


def verus(lf, extra, timeout):
    rc, o, e = run(["verus", "all.rs", "--num-threads", "8", "--output-json", "--time-expanded",
                    "--triggers-mode", "silent", "--error-format=json", "--multiple-errors", "8"] + extra, timeout, cwd=DIR)
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    try:
        js = json.loads(o[o.index("{"):])
    except ValueError:
        js = {}
    return rc, js, diags


def breakdown(js):
    out = {}
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::", 1)[-1]
            k = out.setdefault(n, dict(ok=True, ms=0.0))
            k["ok"] &= bool(f["success"])
            k["ms"] += f.get("time-micros", 0) / 1000
    return out


def diag_line(d):
    """The place an error belongs to: prefer spans inside lifted functions' bodies."""
    return [s["line_start"] for s in d.get("spans", []) if s.get("file_name", "").endswith("all.rs")]


UNDECIDED = re.compile(r"rlimit|resource limit|timed? ?out|solver|could not finish|out of memory", re.I)


def prove():
    """-> dict(state=..., per function: 'proved' | 'failed' | 'undecided')"""
    res = dict(functions={}, failed={}, undecided={}, notes=[], ms=0.0, out="")
    lift, msg = build("lift")
    if not lift:
        res["notes"].append("the extractor does not build: " + msg)
        res["broken"] = True
        return res
    stubs = []
    for attempt in range(6):
        lf = Lifted(lift, stubs)
        if not lf.ok:
            res["notes"].append("extraction failed: " + lf.err)
            res["broken"] = True
            return res
        rc, js, diags = verus(lf, ["--rlimit", "40"], max(60, min(400, left() - 200)))
        if rc is None:
            res["notes"].append("verifier ran out of time")
            res["broken"] = True
            return res
        bd = breakdown(js)
        if bd and not js.get("verification-results", {}).get("encountered-vir-error"):
            break
        # type or mode errors: stub the functions they are in, decide the rest
        bad = set()
        for d in diags:
            for n in diag_line(d):
                k, v = lf.at(n)
                if k == "fn" and v not in stubs:
                    bad.add(v)
        res["notes"] += [f"not typeable by the verifier: {d['message'][:200]} (in {sorted(bad)})" for d in diags[:6]]
        if not bad:
            res["broken"] = True
            res["notes"].append("the lifted file is rejected outside any function")
            res["lf"] = lf
            return res
        stubs += sorted(bad)
    else:
        res["broken"] = True
        return res
    res["lf"] = lf
    for s in set(stubs) | set(lf.stubbed):
        res["undecided"][s] = "body out of the verifier's reach: " + "; ".join(lf.unsupported.get(s, ["rejected"]))
    for k, why in lf.unsupported.items():
        if k not in lf.fns:
            res["undecided"].setdefault(k, "; ".join(why))
    names = {}
    for n, v in bd.items():
        names[n] = v

    def collect(diags):
        errs = {}
        for d in diags:
            ls = diag_line(d)
            if not ls:
                continue
            # a failed obligation's function: the one whose body contains a primary span
            prim = [s["line_start"] for s in d["spans"] if s.get("is_primary")] or ls
            owner = None
            for n in prim + ls:
                k = lf.at(n)
                if k[0] != "th" or owner is None:
                    owner = k if owner is None or owner[0] == "th" else owner
            errs.setdefault(owner, []).append(d)
        return errs

    errs = collect(diags)
    # Second attempt for what failed: another solver seed and more resources. A proof is a proof.
    bad_names = {n for n, v in names.items() if not v["ok"] and "canary" not in n}
    if bad_names and left() > 300:
        rc2, js2, diags2 = verus(lf, ["--rlimit", "120", "-V", "no-solver-version-check", "--smt-option", "smt.random_seed=17"], min(300, left() - 260))
        bd2 = breakdown(js2)
        if rc2 is not None and bd2:
            for n in bad_names:
                if bd2.get(n, {}).get("ok"):
                    names[n]["ok"] = True
                    res["notes"].append(f"{n}: discharged on the second attempt")
            errs2 = collect(diags2)
            errs = {k: (errs2.get(k) or v) for k, v in errs.items()}
    canary = [n for n in names if "canary" in n]
    if not canary or any(names[n]["ok"] for n in canary):
        res["broken"] = True
        res["notes"].append("VACUOUS: a reachability canary was proved")
        return res
    res["ms"] = sum(v["ms"] for v in names.values())
    ow = {}  # function key -> verus name
    for key in lf.fns:
        v = names.get(key)
        if key in res["undecided"]:
            res["functions"][key] = dict(lf.fns[key], state="undecided", ms=0)
            continue
        if v is None:
            # no query was generated for it: count as undecided, never as proved
            res["functions"][key] = dict(lf.fns[key], state="undecided", ms=0)
            res["undecided"][key] = "no obligation was generated"
        elif v["ok"]:
            res["functions"][key] = dict(lf.fns[key], state="proved", ms=round(v["ms"], 1))
        else:
            ds = errs.get(("fn", key), [])
            msgs = [d["message"] for d in ds]
            real = [d for d in ds if not UNDECIDED.search(d["message"])]
            if real and key not in lf.lost:
                res["functions"][key] = dict(lf.fns[key], state="failed", ms=round(v["ms"], 1))
                res["failed"][key] = real
            else:
                why = "; ".join(lf.lost.get(key, [])) + " " + "; ".join(msgs)
                res["functions"][key] = dict(lf.fns[key], state="undecided", ms=round(v["ms"], 1))
                res["undecided"][key] = why.strip()
    for k in lf.lost:
        if k not in lf.fns:
            res["undecided"].setdefault(k, "; ".join(lf.lost[k]))
    fnnames = set(lf.fns)
    res["lemmas"] = {n: v for n, v in names.items() if n not in fnnames and "canary" not in n}
    res["lemmas_failed"] = [n for n, v in res["lemmas"].items() if not v["ok"]]
    return res


# ------------------------------------------------------------------------------ extraction

def same(lf, secs):
    """Compiles the lifted text with its ghost code erased (by Verus's own macro) over model.rs, runs it
    beside the crate on random grammars and inputs and compares all they compute.
    -> (None | what differs, record for the evidence)"""
    if lf.stubbed or "unimplemented!()" in lf.text[lf.text.index("//@fn "):]:
        return None, dict(run=False, why="some function is out of the verifier's reach")
    i = lf.text.index("pub type ActTable") if "pub type ActTable" in lf.text else -1
    if i < 0:
        return None, dict(run=False, why="no lifted section")
    t = lf.text[i:lf.text.index("//@canary")]
    t = re.sub(r"(?m)^((?:#\[verifier::\w+\(\w+\)\] )*)pub (struct|enum) ",
               r"\1#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)] pub \2 ", t)
    bound = lambda m: ", ".join(x if x[0] == "'" or ":" in x else x + ": RT" for x in m.split(", "))
    t = re.sub(r"(?m)^impl<([^>]*)>", lambda m: f"impl<{bound(m[1])}>", t)
    t = re.sub(r"(?m)^((?:pub )?fn \w+)<([^>]*)>", lambda m: f"{m[1]}<{bound(m[2])}>", t)
    d = f"{DIR}/same"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/lifted.rs", "w").write("verus!{\n" + t + "\n}\n")
    rc, o, e = run(["verus", "--version"], 60)
    m = re.search(r"Toolchain: (\S+)", o or "")
    tc = m[1] if m else "1.98.1-x86_64-unknown-linux-gnu"
    macros = "/opt/veriftools/verus/libverus_builtin_macros.so"
    common = ["rustc", "+" + tc, "--edition", "2021", "-O", "--cap-lints", "allow", "-C", "debug-assertions"]
    env = dict(ENV, LIFTED=f"{d}/lifted.rs", RUSTC_BOOTSTRAP="1")
    try:
        for cmd in (common + ["--crate-type", "rlib", "--crate-name", "lrp", f"{REPO}/src/lib.rs", "-o", f"{d}/liblrp.rlib"],
                    common + [f"{ROOT}/same/main.rs", "-o", f"{d}/same", "--extern", f"lrp={d}/liblrp.rlib",
                              "--extern", f"verus_builtin_macros={macros}"]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=180, env=env)
            if p.returncode != 0:
                return None, dict(run=False, why="it does not compile: " + p.stdout[-600:])
        ps = [subprocess.Popen([f"{d}/same", str(secs), str(SEED * 100 + k)], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, preexec_fn=limits) for k in range(6)]
        rec = dict(run=True, grammars=0, compared=0, parses=0)
        diff = None
        end = time.time() + secs + 30
        for p in ps:
            try:
                o, _ = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                rec["ended"] = "not all runs ended in time"
                continue
            if p.returncode == 0:
                for k, v in json.loads(o).items():
                    rec[k] += v
            elif p.returncode == 1:
                diff = diff or o.strip()
            else:
                rec["ended"] = f"a run died ({p.returncode})"
    except (OSError, subprocess.TimeoutExpired, ValueError) as x:
        return None, dict(run=False, why=str(x)[:300])
    return diff, rec


# --------------------------------------------------------------------------------------- search

def known():
    out = []
    f = f"{ROOT}/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) grammar=\[(.*?)\](?: input=\[(.*?)\])? (.*)", l)
            if m and m[1] == PROP:
                out.append((m[2], m[3], m[4]))
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(exe, f):
    rc, o, e = run([exe, "--replay", f], 200, preexec_fn=limits)
    if rc == 0:
        return None
    return (o.strip().split("\n")[-1] or "crash") if rc == 1 else f"the process died (status {rc}): {e.strip()[-200:]}"


def search(exe, secs, procs, ends=False):
    """-> (replay path, what) or None; and stats. `ends`: everything is proved, termination included, so
    a case that takes long is slow, and no finding."""
    kids = []
    for i in range(procs):
        b = f"{DIR}/s{i}"
        for s in ("progress", "out", "stats"):
            try:
                os.unlink(f"{b}.{s}")
            except FileNotFoundError:
                pass
        cmd = [exe, PROP, "--seed", str(SEED * 1000 + i), "--secs", str(secs), "--progress", f"{b}.progress",
               "--out", f"{b}.out", "--stats", f"{b}.stats", "--part", str(i), "--parts", str(procs)]
        kids.append((b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits)))
    stats = dict(evaluations=0, grammars=0, distinct_nontrivial=0, samples=[])
    end = time.time() + secs + 60
    found = None
    live = list(kids)
    while live and not found:
        for b, k in list(live):
            rc = k.poll()
            if rc is None and time.time() > end:
                k.kill()
                rc = k.wait()
            if rc is None:
                continue
            live.remove((b, k))
            k.stdout.close()
            if rc == 0:
                if os.path.exists(f"{b}.stats"):
                    s = json.load(open(f"{b}.stats"))
                    for n in ("evaluations", "grammars", "distinct_nontrivial"):
                        stats[n] += s[n]
                    stats["samples"] += s["samples"]
                continue
            case = f"{b}.out" if rc == 1 else f"{b}.progress"
            if not os.path.exists(case):
                continue
            what = replay(exe, case)
            if what is None:
                continue
            if ends and "no end after" in what:
                log("note: slow, but proved to end:", open(case).read()[:300].replace("\n", "; "))
                continue
            text = open(case).read()
            skip = False
            for g, i, d in known():
                if f"grammar {g}\n" in text and (i is None or f"input {i}\n" in text):
                    print(f"KNOWN-FINDING: property={PROP} {d}", flush=True)
                    skip = True
            if not skip:
                path = f"{DIR}/replay.txt"
                with open(path, "w") as f:
                    f.write(text + f"\nreplayed on the real code: {what}\nrerun: {exe} --replay {path}\n")
                found = (path, what)
                break
        time.sleep(0.05)
    for _, k in live:
        k.kill()
        k.wait()
    stats["samples"] = stats["samples"][:6]
    return found, stats


# ----------------------------------------------------------------------------------------- main

def clause(d):
    """The message of a failed obligation and the text of the clause that is not met."""
    out = [d["message"]]
    for s in d.get("spans", []):
        if "failed" in (s.get("label") or ""):
            ts = s.get("text", [])
            if len(ts) == 1:
                out.append(ts[0]["text"][ts[0]["highlight_start"] - 1:ts[0]["highlight_end"] - 1])
            else:
                out += [t["text"].strip() for t in ts]
    return " :: ".join(out)


def counts(d):
    c = clause(d)
    if P.get("kinds") and not re.search(P["kinds"], d["message"]):
        return False
    return not (P.get("ignore") and re.search(P["ignore"], c))


def render(ds):
    return "\n".join(d.get("rendered", d["message"]) for d in ds)


def trusted(lf):
    """Everything in the verified file that is assumed and not proved."""
    t = lf.text
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub )?(?:broadcast |uninterp |open |closed )*(?:proof |spec |axiom )?(?:fn|struct) \w+)", t):
        out.append(m[1].replace("pub ", ""))
    for m in re.finditer(r"(?:pub )?(?:broadcast )?axiom fn (\w+)", t):
        out.append("axiom " + m[1])
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.append(f"{m[1]} at line {t[:m.start()].count(chr(10)) + 1}")
    for m in re.finditer(r"assume_specification[^\n]*", t):
        out.append(m[0][:80])
    return out


def main():
    groups = set(P["primary"])
    upstream = set(P.get("upstream", []))
    pr = prove()
    broken = pr.get("broken", False)
    fns = pr["functions"]
    inscope = lambda gs, k: bool(set(fns[k]["groups"]) & gs)
    prim = [k for k in fns if inscope(groups, k)]
    up = [k for k in fns if k not in prim and inscope(upstream, k)]
    expected = [k for k, gs in contract_keys() if gs & (groups | upstream)]
    missing = [k for k in expected if k not in fns]
    # Only obligations that speak of this property decide it: `kinds` selects them, `ignore` drops some.
    # A function that fails others only is undecided here, and the search looks for a failing input.
    for k in prim:
        if fns[k]["state"] == "failed" and not any(counts(d) for d in pr["failed"][k]):
            fns[k]["state"] = "undecided"
            pr["undecided"][k] = "obligations of other properties that this one rests on are not proved: " + \
                "; ".join(sorted({clause(d)[:160] for d in pr["failed"][k]}))
    failed = [k for k in prim if fns[k]["state"] == "failed"]
    undecided = [k for k in prim if fns[k]["state"] == "undecided"] + [k for k in missing]
    upbad = [k for k in up if fns[k]["state"] != "proved"]
    lem_bad = pr.get("lemmas_failed", [])
    proved = not broken and not failed and not undecided and not upbad and not lem_bad and bool(prim)
    diff, ext = None, dict(run=False, why="the verifier gave no answer")
    if pr.get("lf") and not broken:
        diff, ext = same(pr["lf"], 60 if TIER == "thorough" else 4)
    if diff:
        # The text the verifier saw is not the code: its answer does not count.
        pr["notes"].append("the lifted text and the crate differ: " + diff[:600])
        proved, failed, undecided = False, [], prim + missing
        for k in prim:
            pr["undecided"][k] = "the lifted text and the crate differ"
    for n in pr["notes"]:
        log("note:", n)
    log(f"verifier: {sum(f['state']=='proved' for f in fns.values())}/{len(fns)} functions, "
        f"{sum(v['ok'] for v in pr.get('lemmas', {}).values())}/{len(pr.get('lemmas', {}))} lemmas, solver {pr['ms']:.0f} ms; lifted text beside the crate: {ext}")
    for k in failed:
        log("FAILED", k, "|", "; ".join(sorted({clause(d)[:160] for d in pr["failed"][k]})))
    for k in undecided:
        log("UNDECIDED", k, "|", pr["undecided"].get(k, "not in the crate"))
    for k in upbad:
        log("UPSTREAM not proved:", k, fns[k]["state"])
    for n in lem_bad:
        log("LEMMA not proved:", n)
    exe, msg = build("search")
    found, stats = None, None
    thorough = TIER == "thorough"
    partial = not P.get("complete", True)
    if exe:
        if failed:
            secs = min(300, left() - 100)
        elif not proved or partial:
            secs = min(300 if thorough else 240, left() - 100)
        else:
            secs = min(200 if thorough else 10, left() - 100)
        if secs >= 5:
            found, stats = search(exe, int(secs), 8, proved and not partial)
    else:
        log("note: the search crate does not build against /repo:", msg[-800:])
    violations = 0
    code = 0
    if found:
        violations = 1
        log("failing case:", found[1])
        print(f"VIOLATION property={PROP} replay={found[0]}", flush=True)
        code = 1
    elif failed:
        path = f"{DIR}/obligation.txt"
        with open(path, "w") as f:
            f.write(f"property {PROP}\n")
            for k in failed:
                f.write(f"\nfailed obligation in {k} ({fns[k]['where']}), lifted text {DIR}/all.rs\n{render(pr['failed'][k])}\n")
            f.write(f"\nbounded search on the real code found no failing input: {json.dumps(stats)}\n")
        violations = 1
        print(f"VIOLATION property={PROP} replay={path} no-failing-input-found", flush=True)
        code = 1
    elif not proved and not stats:
        log("no answer: neither the verifier nor the search could run")
        code = 2
    lf = pr.get("lf")
    n_obl = len(prim) + len(up) + len(missing) + len(pr.get("lemmas", {}))
    n_dis = sum(fns[k]["state"] == "proved" for k in prim + up) + sum(v["ok"] for v in pr.get("lemmas", {}).values())
    cov = {
        "obligations": n_obl,
        "discharged": n_dis,
        "obligation_unit": "one verifier query set per function or lemma (all its pre/postconditions, invariants, "
                           "termination measures, panics, bounds and overflow conditions)",
        "checker_cmd": "verus all.rs --num-threads 8 --rlimit 40 (Z3 bundled with Verus) on the file lifted from /repo/src by lift",
        "backend": "Verus 0.2026.09.13 / Z3",
        "solver_ms": round(pr["ms"], 1),
        "trusted_base": (trusted(lf) if lf and lf.ok else []) + CONF["trusted"],
        "functions_under_contract": {k: {"state": fns[k]["state"], "where": fns[k]["where"], "solver_ms": fns[k]["ms"],
                                         "role": "primary" if k in prim else "upstream"} for k in prim + up},
        "functions_missing": missing,
        "undecided": {k: pr["undecided"].get(k, "") for k in undecided + upbad},
        "failed": {k: sorted({d["message"] for d in pr["failed"].get(k, [])}) for k in failed},
        "lifted_text_beside_the_crate": ext,
        "inlined_helpers": lf.inlined if lf and lf.ok else [],
        "not_under_contract": P.get("outside", []),
        "bounded_search": stats or {},
        "notes": pr["notes"],
    }
    level = P["level"]
    if not proved and not violations:
        level = "exploration"
        cov["explanation"] = ("NOT PROVED on this tree: some function is out of the verifier's reach (see undecided); "
                              "the bounded search stands in")
    if level == "exploration":
        s = stats or dict(evaluations=0, distinct_nontrivial=0, samples=[])
        cov.update(evaluations=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"], samples=s["samples"] or ["none"],
                   rule="curated and random augmented grammars (random ones of at most 5 nonterminals; at most 8000 pairs of an item "
                        "and a lookahead over all canonical states and 1200 in one) with all short inputs, sampled sentences "
                        "and mutations; nontrivial: distinct grammar with at least 3 rules")
    ev = dict(property=PROP, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=CONF["assumptions"] + P.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=violations)
    with open(f"{ROOT}/evidence/{PROP}.json", "w") as f:
        json.dump(ev, f, indent=1)
    log("proved" if proved else "not proved", "| search:", {k: v for k, v in (stats or {}).items() if k != "samples"})
    sys.exit(code)


if __name__ == "__main__":
    main()
