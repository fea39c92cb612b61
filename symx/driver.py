"""Runs the harnesses of one property: build from /repo, symbolic exploration, replay, evidence."""
import hashlib, itertools, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = os.path.join(ROOT, "sym")
TARGET = os.path.join(SYM, "target")
REAL = os.path.join(SYM, "real")
EVID = os.path.join(ROOT, "evidence")
REPO = "/repo"
ENVV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_ENCODED_RUSTFLAGS="")
ENVV.pop("CARGO_ENCODED_RUSTFLAGS")
ENVV.pop("RUSTFLAGS")
ENVV.pop("CARGO_TARGET_DIR", None)
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

class Broken(Exception):
    """the check cannot give an answer"""

def log(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- building
def fresh():
    """drop cached builds of the crates under test when their sources changed in a way cargo might not notice"""
    h = hashlib.sha256()
    for base in ("srp", "spake2", "aucpace"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
            ds[:] = sorted(x for x in ds if x not in ("target", "tests", "benches"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    k = h.hexdigest()
    for t in (TARGET, os.path.join(REAL, "target")):
        st = os.path.join(t, "repo.stamp")
        old = open(st).read() if os.path.exists(st) else None
        if old != k:
            for prof in ("release", "native"):
                fp = os.path.join(t, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for n in os.listdir(fp):
                        if re.match(r"(srp|spake2|aucpace)-[0-9a-f]{16}$", n):
                            shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            os.makedirs(t, exist_ok=True)
            with open(st, "w") as fh:
                fh.write(k)

def cargo(args, cwd):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=ENVV, capture_output=True, text=True, timeout=600)
    if p.returncode:
        log(p.stderr[-3000:])
        raise Broken("cargo %s failed" % " ".join(args[:4]))

def build_ir(crate):
    cargo(["rustc", "-p", crate, "--release", "--offline", "--lib", "--target-dir", TARGET, "--crate-type", "cdylib", "--",
           "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], SYM)
    return os.path.join(TARGET, "release", "deps", crate + ".ll")

def build_native(real):
    if real:
        cargo(["build", "--release", "--offline", "--target-dir", os.path.join(REAL, "target")], REAL)
        return os.path.join(REAL, "target", "release", "real")
    cargo(["build", "-p", "runner", "--profile", "native", "--offline", "--target-dir", TARGET], SYM)
    return os.path.join(TARGET, "native", "runner")

# ---------------------------------------------------------------- tapes and native runs
def tape_text(t, extra=()):
    ls = list(extra)
    ls += ["%s %s %s" % (k, (g or "x").replace(" ", "_"), v) for k, g, v in t["inputs"]]
    ls += ["uf %d -%s %s" % (f, i, o) for f, i, o in t["ufs"]]
    return "\n".join(ls) + "\n"

def native(binary, harness, path, verbose=False, timeout=60):
    """(exit code, output lines) of the harness run natively on a tape"""
    try:
        p = subprocess.run([binary, harness, path] + (["-v"] if verbose else []), capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return 3, ["TIMEOUT"]
    return p.returncode, (p.stdout + p.stderr).splitlines()

def failing(rc, out):
    return rc == 1 or rc < 0 or rc > 3

def replay(harness, tape, outdir, stem, tries=40):
    """Reproduce a counterexample natively.  Returns (how, path of the tape, message) or None"""
    os.makedirs(outdir, exist_ok=True)
    best = None
    for real in (True, False):
        try:
            b = build_native(real)
        except Exception as e:
            log("native build failed: %s" % e)
            continue
        cands = [()] + [("rndin %d" % (1000 * i + 7),) for i in range(tries)] + [("rnd %d" % (100000 * i + 13),) for i in range(tries)]
        t0 = time.time()
        for ex in cands:
            p = os.path.join(outdir, "%s-%s.tape" % (stem, "real" if real else "model"))
            with open(p, "w") as f:
                f.write(tape_text(tape, ex))
            rc, out = native(b, harness, p, timeout=30)
            if failing(rc, out):
                msg = [l for l in out if l.startswith(("FAILED", "PANIC"))][:4] or ["exit status %d" % rc]
                what = "real dependencies" if real else "model dependencies"
                how = "counterexample reproduced with the %s%s" % (what, "" if not ex else " (same choices, other values: the counterexample's values are of the model)" if ex[0].startswith("rndin") else " (other values)")
                with open(p + ".txt", "w") as f:
                    f.write("%s\n%s\nre-run: %s %s %s -v\n" % (how, "\n".join(out), b, harness, p))
                return how, p, "; ".join(msg)
            if time.time() - t0 > 60:
                break
    return None

# ---------------------------------------------------------------- symbolic jobs
def job(ll, harness, choices, opts, conn, preload):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (opts.get("mem_gb", 6) << 30, opts.get("mem_gb", 6) << 30))
        import engine, dbginfo
        E = engine.Engine(ll, dict(opts, choices=choices), mod=preload)
        r = E.run(harness)
        r["functions"] = dbginfo.functions(E)
        r["solver"] = E.second_solver() if opts.get("second") else None
        r["queried"] = E.query_kinds() if hasattr(E, "query_kinds") else None
        conn.send(r)
    except BaseException as e:
        conn.send(dict(error="".join(traceback.format_exception(e))[-2500:]))
    conn.close()

def run_jobs(ll, jobs, opts, deadline):
    """jobs: [(harness, choices)].  Yields (job, result) as they finish; stops at the deadline."""
    import ir
    mod = ir.Module(ll)
    ctx = mp.get_context("fork")
    pend = list(jobs)
    live = {}
    try:
        while pend or live:
            while pend and len(live) < NPROC:
                j = pend.pop(0)
                a, b = ctx.Pipe(False)
                o = dict(opts)
                o["time_limit"] = max(5, min(o.get("time_limit", 800), deadline - time.time()))
                p = ctx.Process(target=job, args=(ll, j[0], j[1], o, b, mod), daemon=True)
                p.start()
                b.close()
                live[a] = (p, j, time.time())
            got = mp.connection.wait(list(live), timeout=2)
            for a in got:
                p, j, t = live.pop(a)
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(error="worker died")
                p.join(10)
                yield j, r
            if time.time() > deadline + 20:
                for a, (p, j, t) in list(live.items()):
                    yield j, dict(error="no answer before the deadline")
                return
    finally:
        for a, (p, j, t) in live.items():
            p.kill()

def pinned(ll, mod, harness, tape, timeout):
    """execute one concrete tape in the symbolic engine and return its trace"""
    import engine
    uf = {}
    for f, i, o in tape["ufs"]:
        uf[(f, bytes.fromhex(i), len(o) // 2)] = bytes.fromhex(o)
    E = engine.Engine(ll, dict(pin=dict(inputs=tape["inputs"], uf=uf), time_limit=timeout), mod=mod)
    r = E.run(harness)
    return E.last.trace, r

def pinned_job(ll, mod, harness, tape, timeout, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        tr, r = pinned(ll, mod, harness, tape, timeout)
        conn.send(dict(trace=tr, bad=r["violations"], inc=r["inconclusive"]))
    except BaseException as e:
        conn.send(dict(error="".join(traceback.format_exception(e))[-1500:]))
    conn.close()

def validate(ll, cases, tmp, deadline):
    """Translator validation: the engine and the compiled code must behave alike on concrete tapes.
    cases: [(harness, tape or None for a random one, seed)].  Returns (number validated, disagreements, real runs ok)"""
    import ir
    b = build_native(False)
    breal = build_native(True)
    mod = ir.Module(ll)
    ctx = mp.get_context("fork")
    os.makedirs(tmp, exist_ok=True)
    todo = []
    realruns = realbad = 0
    bad = []
    for n, (h, tape, seed) in enumerate(cases):
        p = os.path.join(tmp, "v%d.tape" % n)
        with open(p, "w") as f:
            f.write(tape_text(tape) if tape else "rnd %d\n" % seed)
        rc, out = native(b, h, p, True)
        if rc == 3 or (rc == 2 and tape is None):
            continue
        ins = [l[5:].split(" ") for l in out if l.startswith("TAPE ")]
        tr = [l[6:] for l in out if l.startswith("TRACE ")]
        ins = [(x[0], x[1], x[2] if len(x) > 2 else "") for x in ins]
        if tape is not None:
            ins = tape["inputs"]
        if rc == 1:
            # the compiled code fails a check on this tape
            bad.append((h, "native run fails: " + "; ".join(l for l in out if l.startswith(("FAILED", "PANIC")))[:300], p))
        todo.append((n, h, dict(inputs=ins, ufs=tape["ufs"] if tape else []), tr))
        rc2, out2 = native(breal, h, p, False)
        if rc2 in (0, 1) or rc2 < 0:
            realruns += 1
            if failing(rc2, out2):
                realbad += 1
                bad.append((h, "native run with the real dependencies fails: " + "; ".join(l for l in out2 if l.startswith(("FAILED", "PANIC")))[:300], p))
    ok = 0
    live = {}
    skipped = 0
    while todo or live:
        while todo and len(live) < NPROC and time.time() < deadline:
            n, h, tape, tr = todo.pop(0)
            a, c = ctx.Pipe(False)
            q = ctx.Process(target=pinned_job, args=(ll, mod, h, tape, max(5, deadline - time.time()), c), daemon=True)
            q.start()
            c.close()
            live[a] = (q, h, tr, n)
        if not live:
            skipped += len(todo)
            break
        for a in mp.connection.wait(list(live), timeout=2):
            q, h, tr, n = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = dict(error="worker died")
            if "error" in r or r["inc"]:
                skipped += 1
                log("translator validation of %s: %s" % (h, str(r.get("error") or r["inc"])[-300:]))
            elif r["trace"] != tr:
                k = next((i for i, (x, y) in enumerate(zip(r["trace"], tr)) if x != y), min(len(tr), len(r["trace"])))
                bad.append((h, "engine and compiled code differ at event %d: %s / %s" % (k, r["trace"][k:k + 1], tr[k:k + 1]), os.path.join(tmp, "v%d.tape" % n)))
            else:
                ok += 1
        if time.time() > deadline + 20:
            skipped += len(live) + len(todo)
            for a, x in live.items():
                x[0].kill()
            break
    return ok, skipped, realruns, bad

# ---------------------------------------------------------------- one check
def labels(crate, harness):
    """the reach labels a harness can print"""
    src = open(os.path.join(SYM, crate, "src", "lib.rs")).read()
    m = re.search(r"\n    fn %s\(\) \{(.*?)\n    \}" % harness, src, re.S)
    if not m:
        raise Broken("no harness %s in %s" % (harness, crate))
    body = m.group(1)
    for mod, fn in re.findall(r"(\w+)::(\w+)\(\)", body):
        p = os.path.join(SYM, crate, "src", mod + ".rs")
        if os.path.exists(p):
            f = re.search(r"\npub fn %s\(\) \{(.*?)\n\}" % fn, open(p).read(), re.S)
            body += f.group(1) if f else ""
    return re.findall(r'reach\("([^"]*)"\)', body)

def expand(choices, split):
    """cross product of the choices over the tags to split"""
    tags = [t for t in split if t in choices]
    out = []
    for combo in itertools.product(*[choices[t] for t in tags]):
        c = dict(choices)
        for t, v in zip(tags, combo):
            c[t] = [v] if not isinstance(v, list) else v
        out.append(c)
    return out

def known():
    """entries of known-findings.txt: [(property, harness, check message, text)]"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) check="([^"]*)" (.*)', l)
            if m:
                out.append(m.groups())
    return out

def check(prop, spec, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = spec.get("limit", {}).get(tier, 820 if tier == "quick" else 3 * 3600)
    deadline = t0 + limit
    os.makedirs(EVID, exist_ok=True)
    outdir = os.path.join(EVID, "replay", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    fresh()
    tot = dict(paths=0, segs=0, queries=0, solver_s=0.0, checks=0, checks_solver=0, checks_trivial=0, forks=0, sat=0, unsat=0)
    per, samples, funcs, inconclusive, viol, knownhits = {}, [], {}, [], [], []
    second = dict(checked=0, agreed=0, unknown=0, disagreed=0)
    validated = skipped = realruns = 0
    kf = [k for k in known() if k[0] == prop]
    try:
        for crate in sorted({h["crate"] for h in spec["harnesses"]}):
            ll = build_ir(crate)
            jobs = []
            reach = {}
            for h in spec["harnesses"]:
                if h["crate"] != crate or h.get("only", tier) != tier:
                    continue
                ch = dict(h.get("choices", {}))
                sp = h.get("split", [])
                if tier == "thorough":
                    ch = dict(h.get("thorough", ch))
                    sp = h.get("thorough_split", sp)
                opt = set(h.get("unreached", []))
                reach.setdefault(h["name"], (set(labels(crate, h["name"])) - opt, {}))
                js = [(h["name"], c) for c in expand(ch, sp)]
                jobs.append(js)
            # interleave the harnesses, slow ones (many jobs) first
            flat = [j for g in itertools.zip_longest(*sorted(jobs, key=lambda g: -len(g))) for j in g if j]
            opts = dict(spec.get("opts", {}))
            opts.update(keep_witness=True, seed=seed, second=20 if tier == "thorough" else 0)
            if tier == "thorough":
                opts["timeout_ms"] = 240000
            wit = []
            for (h, ch), r in run_jobs(ll, flat, opts, deadline):
                if "error" in r:
                    inconclusive.append("%s %s: %s" % (h, json.dumps(ch), r["error"]))
                    continue
                st = r["stats"]
                for k in tot:
                    tot[k] += st.get(k, 0)
                p = per.setdefault(h, dict(jobs=0, paths=0, queries=0, checks=0, solver_s=0.0, wall_s=0.0))
                p["jobs"] += 1
                for k in ("paths", "queries", "checks", "solver_s"):
                    p[k] = round(p[k] + st[k], 2)
                p["wall_s"] = round(p["wall_s"] + r["time_s"], 2)
                for k, v in r["reached"].items():
                    d = reach[h][1]
                    if k not in d and r.get("witness", {}).get(k):
                        wit.append((h, k, r["witness"][k]))
                    d[k] = d.get(k, 0) + v
                for k, v in r["functions"].items():
                    funcs.setdefault(k, set()).update(v)
                if r.get("solver"):
                    for k in second:
                        second[k] += r["solver"][k]
                    if r["solver"]["disagreed"]:
                        inconclusive.append("%s: the second solver disagrees: %s" % (h, r["solver"].get("what")))
                for x in r["inconclusive"]:
                    inconclusive.append("%s %s: %s" % (h, json.dumps(ch), x))
                new = []
                for v in r["violations"]:
                    hit = next((k for k in kf if k[1] == h and k[2] in v["what"]), None)
                    if hit:
                        knownhits.append(hit)
                    else:
                        new.append((h, v))
                if new:
                    viol += new
                    break
            for h, (want, got) in reach.items():
                if not viol and want - set(got):
                    inconclusive.append("%s: never reached: %s" % (h, sorted(want - set(got))))
            for h, k, t in wit[:4]:
                samples.append(dict(harness=h, reached=k, inputs=[list(x) for x in t["inputs"]][:12]))
            if not viol:
                hs = sorted({j[0] for j in flat})
                cases = [(h, t, 0) for h, k, t in wit][:40]
                cases += [(h, None, 1000 * seed + 17 * i + 1) for h in hs for i in range(4 if tier == "quick" else 20)]
                tmp = os.path.join(TARGET, "validate-" + prop)
                shutil.rmtree(tmp, ignore_errors=True)
                ok, sk, rr, bad = validate(ll, cases, tmp, min(deadline + 60, time.time() + (90 if tier == "quick" else 600)))
                validated += ok
                skipped += sk
                realruns += rr
                for h, what, p in bad:
                    if "native run" in what:
                        os.makedirs(outdir, exist_ok=True)
                        q = os.path.join(outdir, os.path.basename(p))
                        shutil.copy(p, q)
                        rc, out = native(build_native(True), h, q)
                        if failing(rc, out):
                            viol.append((h, dict(what=what, path=q)))
                            continue
                    inconclusive.append("%s: %s" % (h, what))
                shutil.rmtree(tmp, ignore_errors=True)
            if viol:
                break
    except Broken as e:
        inconclusive.append(str(e))
    except subprocess.TimeoutExpired as e:
        inconclusive.append(str(e))
    # ---- verdict
    code = 0
    reported = []
    for i, (h, v) in enumerate(viol[:3]):
        if "path" in v:
            reported.append((h, v["what"], v["path"], "native run with the real dependencies"))
            break
        log("counterexample in %s: %s" % (h, v["what"]))
        rp = replay(h, v["tape"], outdir, "%s-%d" % (h, i))
        if rp:
            how, path, msg = rp
            log("  %s: %s" % (how, msg))
            reported.append((h, v["what"], path, how))
            break
        os.makedirs(outdir, exist_ok=True)
        p = os.path.join(outdir, "%s-%d-unconfirmed.tape" % (h, i))
        with open(p, "w") as f:
            f.write(tape_text(v["tape"]))
        inconclusive.append("%s: counterexample to '%s' (%s) was not reproduced natively" % (h, v["what"], p))
    if not reported and inconclusive:
        # undecided symbolically: concrete runs of the real code may still settle that the property fails
        try:
            b = build_native(True)
            os.makedirs(outdir, exist_ok=True)
            for h in spec["harnesses"]:
                for i in range(60):
                    p = os.path.join(outdir, "%s-search.tape" % h["name"])
                    with open(p, "w") as f:
                        f.write("rnd %d\n" % (50000 * seed + 977 * i))
                    rc, out = native(b, h["name"], p, timeout=10)
                    if rc == 3:
                        break
                    if failing(rc, out):
                        reported.append((h["name"], "; ".join(l for l in out if l.startswith(("FAILED", "PANIC")))[:300], p, "found by concrete runs of the real code after the symbolic exploration was inconclusive"))
                        break
                if reported:
                    break
        except Exception as e:
            log("concrete search failed: %s" % e)
    for k in dict.fromkeys(knownhits):
        log("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if reported:
        h, what, path, how = reported[0]
        log("property %s violated in harness %s: %s (%s)" % (prop, h, what, how))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif inconclusive:
        for x in inconclusive[:10]:
            log("INCONCLUSIVE %s" % x)
        code = 2
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 1), violations=len(reported),
        coverage=dict(
            states=tot["paths"], transitions=tot["segs"], traces_validated_against_impl=validated,
            samples=samples[:6] or [dict(note="no witness was recorded")],
            explanation="Symbolic execution of the LLVM IR that rustc emits for the crate from /repo's working tree. states: execution paths explored to the end; "
                "transitions: IR segments executed on them; traces_validated_against_impl: concrete tapes (solver witnesses and random ones) on which the engine and the "
                "compiled program produced identical event traces (all hash inputs and outputs, check results, labels).",
            functions_encoded={k: len(v) for k, v in sorted(funcs.items())},
            source_lines_encoded=sum(len(v) for v in funcs.values()),
            harnesses=per, bounds=spec["bounds"] if tier == "quick" else spec.get("bounds_thorough", spec["bounds"]), outside_bounds=spec.get("outside", ""),
            queries=tot["queries"], solver_s=round(tot["solver_s"], 1), sat=tot["sat"], unsat=tot["unsat"],
            assertions=tot["checks"], assertions_decided_by_solver=tot["checks_solver"], assertions_decided_by_rewriting=tot["checks_trivial"],
            reached={h: d[1] for h, d in (locals().get("reach") or {}).items()},
            runs_of_real_code=realruns, validation_skipped=skipped,
            second_solver=second if tier == "thorough" else None,
            inconclusive=inconclusive[:10], reported=[dict(harness=h, what=w, replay=p, how=x) for h, w, p, x in reported]),
        assumptions=spec.get("assumptions", []))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %s; %d harness(es), %d paths, %d assertions, %d queries, solver %.0f s, %d traces validated, %d runs of the real code, wall %.0f s" % (
        prop, tier, ["held", "VIOLATED", "no answer"][code], len(per), tot["paths"], tot["checks"], tot["queries"], tot["solver_s"], validated, realruns, wall))
    return code
