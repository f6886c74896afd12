#!/usr/bin/env python3
"""Decide one property: generate the obligations of its units from /repo's current source and have
cbmc discharge them.   usage: check.py PROPERTY [quick|thorough] [-u UNIT ...] [-v]"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep, units
VERIF = prep.VERIF
T0 = time.time()
BUDGET = float(os.environ.get("VP_BUDGET", "840"))
TRUSTED = ["cbmc 6.11.0 symbolic execution with MiniSAT 2.2.1, CaDiCaL, z3 (4.8.12 and the newer z3-new) or cvc5 1.1.2 as decision procedure (first to answer); goto-cc C front end; goto-instrument --dfcc contract instrumentation",
           "model/vp_mpi.h, model/vp_comm.h: assumed contracts of the MPI and libc routines called (executable, trusted)",
           "lib/prep.py: copies /repo's src/, include/, maint/ and runs the repository's own generators; drops only the source formatting step of autogen.sh",
           "model/oshmpiconf.h: the configured header, committed copy"]


def run(cmd, timeout, cwd):
    """returns (rc, out); rc 124 on time out; own process group so nothing survives"""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 124, ""


# back ends tried on each unit: the second and third start when the first has not answered in time
BACKENDS = [("MiniSAT", [], 0), ("CaDiCaL", ["--sat-solver", "cadical"], 12), ("z3", ["--z3"], 30)]


SMT = [("cvc5", ["--cvc5"], 0), ("z3", ["--z3"], 0), ("MiniSAT", [], 20)]


def portfolio(base, timeout, cwd, patience=1, backends=None):
    """first back end to decide wins; returns (rc, out, name)"""
    t0 = time.time()
    live, todo, bad = [], list(backends or BACKENDS), []
    try:
        while True:
            while todo and (time.time() - t0 >= todo[0][2] * patience or not live):
                name, flags, _ = todo.pop(0)
                f = os.path.join(cwd, "out." + name)
                fh = open(f, "w")
                live.append((name, f, subprocess.Popen(base + flags, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT, start_new_session=True)))
                fh.close()
            for ent in list(live):
                name, f, p = ent
                if p.poll() is not None:
                    out = open(f, errors="replace").read()
                    if p.returncode in (0, 10):
                        return p.returncode, out, name
                    live.remove(ent)
                    bad.append((p.returncode, out, name))
            if not live and not todo:
                return bad[0]
            if time.time() - t0 > max(1, timeout):
                return 124, "", ""
            time.sleep(0.05 if time.time() - t0 < 5 else 0.3)
    finally:
        for _, _, p in live:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()


class Ctx:
    def __init__(self, prop, tier, work, verbose):
        self.prop, self.tier, self.work, self.verbose = prop, tier, work, verbose
        self.tree = prep.prepare(os.path.join(work, "tree"))
        self.lock = threading.Lock()

    def conf(self, name):
        with self.lock:
            d = os.path.join(self.tree, "conf_" + name)
            if not os.path.isdir(d):
                define, undef = units.CONFS[name]
                prep.conf(self.tree, name, define, undef)
                if name != "default" and any(x.startswith("OSHMPI_ENABLE_THREAD_MULTIPLE") for x in define):
                    pass
            return d

    def incs(self, u):
        t = self.tree
        return ["-I" + VERIF + "/model", "-I" + self.conf(u.get("conf", "default")), "-I" + t + "/include", "-I" + t + "/src/include",
                "-I" + t + "/src/internal", "-I" + t + "/src/internal/util", "-I" + t + "/src"]


REACH = "VPREACH"


def unwind_trivial(gb, d, timeout):
    """do { } while (0) bodies are not loops: take their back edges away, so that loop contracts can be applied around them"""
    rc, out = run(["goto-instrument", "--show-goto-functions", gb], timeout, d)
    ids, fn, lab, n = [], None, set(), 0
    for line in out.splitlines():
        m = re.match(r"^(\S+) /\* (\S+) \*/$", line)
        if m:
            fn, lab, n = m.group(2), set(), 0
            continue
        m = re.match(r"^\s*(\d+): ", line)
        if m:
            lab.add(m.group(1))
        m = re.match(r"^\s*(?:\d+: )?(?:IF (.*) THEN )?GOTO (\d+)$", line)
        if m and m.group(2) in lab:
            if m.group(1) == "0 \u2260 0":
                ids.append("%s.%d" % (fn, n))
            n += 1
    if ids:
        out = gb + ".t"
        rc, _ = run(["goto-instrument", "--unwindset", ",".join(x + ":1" for x in ids), "--unwinding-assertions", gb, out], timeout, d)
        if rc == 0:
            shutil.move(out, gb)


QUANT = [("z3-new", ["z3-new"]), ("cvc5", ["cvc5"]), ("z3", ["z3"])]


def quantified(base, r, timeout, d):
    """obligations with quantified assumptions: one SMT query each, first back end to answer unsat discharges it"""
    t0 = time.time()
    rc, out = run(base + ["--show-properties", "--json-ui"], timeout, d)
    names = []
    for e in json.loads(out):
        names += [(q["name"], q.get("description", "")) for q in e.get("properties", [])]

    def one(i):
        nm, desc = names[i]
        f = os.path.join(d, "q%d.smt2" % i)
        rc, out = run(base + ["--property", nm, "--z3", "--outfile", f], timeout, d)
        if not os.path.exists(f) or "(check-sat)" not in open(f).read():
            return nm, desc, "unsat" if rc == 0 else "no query (rc %d)" % rc, "simplifier"
        txt = open(f).read()
        open(f + ".all", "w").write("(set-logic ALL)\n" + re.sub(r"(?m)^\(set-logic.*$", "", txt))
        ps = [(n, subprocess.Popen(c + [f + ".all" if n == "cvc5" else f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)) for n, c in QUANT]
        ans, live = ("undecided", ""), list(ps)
        while live and time.time() - t0 < timeout:
            for n, p in list(live):
                if p.poll() is not None:
                    live.remove((n, p))
                    w = p.stdout.readline().strip()
                    if w in ("sat", "unsat"):
                        ans, live = (w, n), []
                        break
            time.sleep(0.05)
        for n, p in ps:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        return nm, desc, ans[0], ans[1]
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        res = list(ex.map(one, range(len(names))))
    r["solver_s"] += time.time() - t0
    r["backend"] = "+".join(sorted(set(b for _, _, _, b in res if b)))
    return res


def prove(ctx, u, unwind=None):
    """one unit -> dict(status, obligations, discharged, failures, solver_s, reach, note, secs)"""
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="u_", dir=ctx.work)
    r = dict(unit=u["name"], status="UNDECIDED", obligations=0, discharged=0, failures=[], solver_s=0.0, note="", secs=0.0,
             unwind=unwind or u.get("unwind", 12))

    def done(status, note=""):
        r["status"], r["note"], r["secs"] = status, note, round(time.time() - t0, 1)
        return r
    limit = u.get("timeout", 600 if ctx.tier == "quick" else 3600)
    left = lambda: min(limit - (time.time() - t0), (BUDGET if ctx.tier == "quick" else 36000) - (time.time() - T0))
    src = os.path.join(VERIF, "harness", u["src"])
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    entry = u.get("entry", "vp_main")
    loops = ["-DVP_LC_" + x for x in u.get("loops", [])] + (["-DVP_LC"] if u.get("loops") else [])
    rc, out = run(["goto-cc", "-DVP_PROVE", "-DONLY_MSPACES", "-DOSHMPI_VP"] + loops + ctx.incs(u) + ["-D" + x for x in u.get("defs", [])] +
                  (["-DVP_DFCC"] if u.get("enforce") else []) + (["-DVP_NOREACH"] if u.get("quant") else []) + ["--function", entry, src, "-o", a], left(), d)
    if rc != 0 or not os.path.exists(a):
        return done("UNDECIDED", "does not build: " + "; ".join([l for l in out.splitlines() if "error" in l.lower() or "undeclared" in l][:4]))
    for rcall in u.get("replace_calls", []):
        rc, out = run(["goto-instrument", "--replace-calls", rcall, a, b], left(), d)
        if rc != 0:
            return done("UNDECIDED", "replace-calls %s: %s" % (rcall, out.strip()[-200:]))
        shutil.move(b, a)
    if u.get("loops"):
        unwind_trivial(a, d, left())
    if u.get("enforce"):
        cmd = ["goto-instrument", "--dfcc", entry, "--enforce-contract", u["enforce"]]
        for c in u.get("replace", []):
            cmd += ["--replace-call-with-contract", c]
        if u.get("loops"):
            cmd += ["--apply-loop-contracts"] + u.get("loop_flags", [])
        rc, out = run(cmd + [a, b], left(), d)
        if rc != 0:
            return done("UNDECIDED", "contract instrumentation: " + out.strip()[-300:])
    elif u.get("loops"):
        rc, out = run(["goto-instrument", "--apply-loop-contracts"] + u.get("loop_flags", []) + [a, b], left(), d)
        if rc != 0:
            return done("UNDECIDED", "loop contracts: " + out.strip()[-300:])
    else:
        shutil.copy(a, b)
    base = ["cbmc", b, "--no-standard-checks", "--unwinding-assertions", "--no-malloc-may-fail", "--unwind", str(r["unwind"]),
            "--object-bits", str(u.get("object_bits", 8))] + u.get("cbmc", [])
    r["cmd"] = " ".join(["goto-cc -DVP_PROVE -DONLY_MSPACES -DOSHMPI_VP"] + loops + ["-D" + x for x in u.get("defs", [])] + ["harness/" + u["src"]] +
                        (["; goto-instrument --replace-calls " + " ".join(u["replace_calls"])] if u.get("replace_calls") else []) +
                        (["; goto-instrument --dfcc vp_main --enforce-contract " + u["enforce"]] if u.get("enforce") else []) +
                        (["; goto-instrument --apply-loop-contracts"] if u.get("loops") else []) +
                        ["; cbmc " + " ".join(base[2:])])
    if u.get("quant"):
        bad = []
        for nm, desc, ans, _ in quantified(base, r, left(), d):
            r["obligations"] += 1
            if ans == "unsat":
                r["discharged"] += 1
            else:
                bad.append("%s (%s): %s" % (nm, desc, ans))
        shutil.rmtree(d, ignore_errors=True)
        return done("UNDECIDED", "; ".join(bad)) if bad else done("PASS" if r["obligations"] else "UNDECIDED")
    rc, out, r["backend"] = portfolio(base + ["--json-ui", "--verbosity", "8"], left(), d, u.get("patience", 1), SMT if u.get("smt") else None)
    if rc == 124:
        return done("UNDECIDED", "time limit")
    try:
        js = json.loads(out)
    except ValueError:
        return done("UNDECIDED", "verifier output unreadable (rc %s): %s" % (rc, out.strip()[-200:]))
    res = None
    for e in js:
        if "result" in e:
            res = e["result"]
        m = re.search(r"Runtime (?:decision procedure|Solver): ([\d.e+-]+)s", e.get("messageText", ""))
        if m and "Solver" in e["messageText"]:
            r["solver_s"] += float(m.group(1))
        if e.get("messageType") == "ERROR":
            r["note"] += e.get("messageText", "")[:200]
    if res is None:
        return done("UNDECIDED", "verifier gave no result: " + r["note"])
    reach, fails, unw = [], [], []
    for p in res:
        desc, st = p.get("description", ""), p["status"]
        if REACH in desc:
            reach.append((desc, st))
            continue
        r["obligations"] += 1
        if st == "SUCCESS":
            r["discharged"] += 1
        elif st == "FAILURE":
            (unw if "unwinding assertion" in desc or ".unwind." in p["property"] or "recursion" in p["property"] else fails).append(p)
        else:
            return done("UNDECIDED", "%s: %s" % (p["property"], st))
    r["reach"] = len(reach)
    if unw and not fails:
        if unwind is None or unwind < 40:
            nu = (unwind or u.get("unwind", 12)) * 2
            shutil.rmtree(d, ignore_errors=True)
            return prove(ctx, u, nu)
        return done("UNDECIDED", "loop bound not sufficient: " + unw[0]["property"])
    if fails:
        for p in fails:
            loc = p.get("sourceLocation", {})
            r["failures"].append(dict(property=p["property"], description=p.get("description", ""),
                                      file=loc.get("file", "").replace(ctx.tree + "/", ""), line=loc.get("line", ""),
                                      function=loc.get("function", ""), text=srcline(loc)))
        r["dir"], r["base"] = d, base
        return done("FAIL")
    if any(st != "FAILURE" for _, st in reach) or not reach or not r["obligations"]:
        return done("UNDECIDED", "vacuous: the code behind the preconditions is not reached (%s)" % ", ".join(x for x, st in reach if st != "FAILURE"))
    if not r["obligations"]:
        return done("UNDECIDED", "no obligations generated")
    shutil.rmtree(d, ignore_errors=True)
    return done("PASS")


def srcline(loc):
    try:
        return open(loc["file"]).read().splitlines()[int(loc["line"]) - 1].strip()[:200]
    except Exception:
        return ""


def trace_inputs(ctx, u, r):
    """inputs of the counterexample of the first failed obligation"""
    if u.get("exact"):
        e = prove(ctx, dict(u, defs=u["defs"] + ["VP_EXACT"], exact=False, timeout=240))
        if e["status"] == "FAIL":
            r = e
    rc, out = run(r["base"] + ["--json-ui", "--trace", "--property", r["failures"][0]["property"]], 400, r["dir"])
    try:
        js = json.loads(out)
    except ValueError:
        return None
    for e in js:
        for p in e.get("result", []):
            if p["status"] == "FAILURE" and "trace" in p:
                lines = []
                for s in p["trace"]:
                    if s.get("stepType") == "input" and s.get("values"):
                        v = s["values"][0]
                        if "binary" in v:
                            bits = v["binary"]
                            bits = bits.zfill((len(bits) + 7) // 8 * 8)
                            lines.append("%s %0*x" % (s["inputID"], len(bits) // 4, int(bits, 2)))
                return lines
    return None


def replay(ctx, u, r, path):
    """run the same unit natively on the verifier's inputs; returns (text, reproduced)"""
    inp = trace_inputs(ctx, u, r)
    if not inp:
        return "no counterexample inputs extracted", False
    f = os.path.join(r["dir"], "inputs")
    open(f, "w").write("\n".join(inp) + "\n")
    exe = os.path.join(r["dir"], "native")
    src = os.path.join(VERIF, "harness", u["src"])
    rc, out = run(["gcc", "-w", "-O0", "-g", "-fcommon", "-DONLY_MSPACES", "-D_GNU_SOURCE", "-D%s=main" % u.get("entry", "vp_main")] + ctx.incs(u) + ["-D" + x for x in u.get("defs", [])] +
                  [src, "-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-lm", "-lpthread"] + u.get("native_libs", []), 120, r["dir"])
    if rc != 0:
        return "native build failed: " + out[-400:], False
    p = subprocess.run(["setsid", "timeout", "60", exe], cwd=r["dir"], env=dict(os.environ, VP_REPLAY=f), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=None)
    ok = "REPLAY-FAIL" in p.stdout
    return "inputs:\n  " + "\n  ".join(inp) + "\nnative run of the unit on these inputs (rc %d):\n%s" % (p.returncode, p.stdout[-2000:]), ok


def show(f):
    return "%s %s [%s:%s %s] %s" % (f["property"], f["description"], f["file"], f["line"], f["function"], f["text"])


def main():
    args = [a for a in sys.argv[1:]]
    verbose = "-v" in args
    only = []
    while "-u" in args:
        i = args.index("-u")
        only.append(args[i + 1])
        del args[i:i + 2]
    args = [a for a in args if a != "-v"]
    if not args:
        print("usage: check.py PROPERTY [quick|thorough]")
        return 2
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    us = units.for_property(prop, tier)
    if only:
        us = [u for u in us if any(re.search(o, u["name"]) for o in only)]
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        return decide(prop, tier, us, work, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, us, work, verbose):
    try:
        ctx = Ctx(prop, tier, work, verbose)
    except Exception as e:
        print("check error: cannot extract the sources: %s" % e)
        return 2
    results, viol, undecided, findings = [], [], [], []
    pool = cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8")))
    order = sorted(us, key=lambda u: -u.get("cost", 10))

    def job(u):
        r = prove(ctx, u)
        if verbose:
            print("# %-40s %-9s %d/%d obligations, %.1f s %s %s" % (u["name"], r["status"], r["discharged"], r["obligations"], r["secs"], r["note"],
                  "; ".join(show(f) for f in r["failures"][:6])), flush=True)
        return u, r
    todo = [pool.submit(job, u) for u in order]
    done1 = [f.result() for f in todo]
    # units that failed or could not be decided modularly are judged in line
    extra, primary = [], {}
    for u, r in done1:
        results.append((u, r))
        if u.get("finding"):
            if r["status"] == "FAIL":
                findings.append(u)
            elif r["status"] == "UNDECIDED":
                undecided.append((u, r))
            continue
        if r["status"] != "PASS" and u.get("fallback"):
            for fu in units.fallback(u):
                if fu["name"] not in primary:
                    primary[fu["name"]] = []
                    extra.append(fu)
                primary[fu["name"]].append(u["name"])
    inline = {}
    stop = threading.Event()

    def job2(u):
        if stop.is_set():
            return u, dict(unit=u["name"], status="SKIPPED", obligations=0, discharged=0, failures=[], solver_s=0.0, note="a violation was found first", secs=0)
        u, r = job(u)
        if r["status"] == "FAIL" and tier == "quick":
            stop.set()
        return u, r
    random.Random(int(os.environ.get("VERIF_SEED", "1"))).shuffle(extra)
    for f in [pool.submit(job2, u) for u in extra]:
        u, r = f.result()
        results.append((u, r))
        inline[u["name"]] = (u, r)
    for u, r in done1:
        if u.get("finding") or r["status"] == "PASS":
            continue
        if u.get("fallback"):
            fr = [v for k, v in inline.items() if u["name"] in primary[k]]
            if all(x["status"] == "PASS" for _, x in fr) and fr:
                r["note"] = ("modular contract not met, but the property was discharged with every call in line (%d units); " % len(fr)) + r["note"]
                r["status"] = "PASS-INLINE"
                continue
            bad = [(a, b) for a, b in fr if b["status"] == "FAIL"]
            if bad:
                for x in bad:
                    if x not in viol:
                        viol.append(x)
                continue
        if r["status"] == "FAIL":
            viol.append((u, r))
        else:
            undecided.append((u, r))
    pool.shutdown()
    for u, r in undecided:
        print("UNDECIDED unit=%s %s" % (u["name"], r["note"]))
    for u in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, u["finding"]))
    rp = ""
    confirmed = False
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", prop + ".txt")
        txt = []
        for u, r in viol:
            txt.append("unit %s (harness/%s)\nverifier: %s\nfailed obligations:" % (u["name"], u["src"], r.get("cmd")))
            for f in r["failures"]:
                txt.append("  " + show(f))
        # replay the cheapest few against the real code
        for u, r in sorted(viol, key=lambda x: x[1]["secs"])[:4]:
            if time.time() - T0 > BUDGET - 60 and tier == "quick":
                break
            try:
                t, ok = replay(ctx, u, r, rp)
            except Exception as e:
                t, ok = "replay error: %r" % e, False
            txt.append("\nreplay of unit %s: %s\n%s" % (u["name"], "REPRODUCED on the real code" if ok else "not reproduced", t))
            if ok:
                confirmed = True
                break
        open(rp, "w").write("property %s\n" % prop + "\n".join(txt) + "\n")
    main_res = [(u, r) for u, r in results if not u.get("finding")]
    ob = sum(r["obligations"] for u, r in main_res if r["status"] in ("PASS", "FAIL"))
    di = sum(r["discharged"] for u, r in main_res if r["status"] in ("PASS", "FAIL"))
    funcs = sorted({f for u, r in main_res for f in u.get("funcs", [])})
    ass = list(units.assumptions(prop))
    for u, r in main_res:
        for a in u.get("assume", []):
            if a not in ass:
                ass.append(a)
    bounded = sorted({"%s: bounded (%s)" % (u["name"], u["bounded"]) for u, r in main_res if u.get("bounded")})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=units.level(prop),
              coverage=dict(obligations=ob, discharged=di,
                            checker_cmd=(results[0][1].get("cmd", "") if results else ""),
                            trusted_base=TRUSTED,
                            functions_under_contract=funcs,
                            back_ends={b: sum(r["discharged"] for _, r in results if r.get("backend") == b) for b in sorted({r.get("backend", "") for _, r in results}) if b},
                            solver_s=round(sum(r["solver_s"] for _, r in results), 2),
                            units=[dict(unit=u["name"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
                                        solver_s=round(r["solver_s"], 2), wall_s=r["secs"], contract=u.get("enforce", "assertions in " + u["src"]),
                                        bounded=u.get("bounded", ""), note=r["note"]) for u, r in results],
                            bounded_units=bounded, bounded_obligations=sum(r["discharged"] for u, r in main_res if u.get("bounded")),
                            proved_obligations=sum(r["discharged"] for u, r in main_res if not u.get("bounded") and r["status"] == "PASS"),
                            undecided=[u["name"] + ": " + r["note"] for u, r in undecided],
                            known_findings=[u["finding"] for u in findings],
                            samples=[dict(unit=u["name"], cmd=r.get("cmd", "")) for u, r in results[:3]],
                            explanation=units.explain(prop)),
              assumptions=ass, wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("property %s: %d units, %d obligations, %d discharged, %d undecided units, %.1f s" %
          (prop, len(results), ob, di, len(undecided), time.time() - T0))
    if viol:
        for u, r in viol:
            for f in r["failures"][:4]:
                print("failed obligation: unit %s: %s" % (u["name"], show(f)))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if confirmed else " no-failing-input-found"))
        return 1
    if us and all(r["status"] == "UNDECIDED" for _, r in results):
        print("check error: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
