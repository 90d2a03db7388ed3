#!/usr/bin/env python3-vt
"""check.py <property>: decides one property for /repo's current working tree.

1. pyvc: obligations of every contract/lemma of the property, generated from /repo's source, discharged by z3;
2. rt: the same contracts executed on the real code (PyPy) -- failing inputs, bounded stand-ins;
3. evidence/<property>.json, KNOWN-FINDING / VIOLATION lines, exit code.
"""
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time

if os.environ.get("PYTHONHASHSEED") is None:          # the same obligations in the same order on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import verify, solve  # noqa: E402

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
T0 = time.time()
DEADLINE = T0 + (3000 if THOROUGH else 560)
STUCK = 1000 if THOROUGH else 200
RT_SECONDS = 600 if THOROUGH else 45
RT_SHARDS = 6 if THOROUGH else 4
PROCS = int(os.environ.get("VERIF_PROCS", "8"))
REPO = "/repo"


def tail(s, n=3000):
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ proofs
def prove_lemma(ld, lemmas, l):
    r = verify.generate(ld, lemmas, l)
    b = l.budget or 20
    solve.solve_all(r.obs, 3, b, 10)
    again = [o for o in r.obs if o.status != "unsat" and o.solver != "sat"]
    if again and not r.error and len(again) <= 12:
        for o in again:
            o.status = None
        solve.solve_all(again, 3, b * (6 if THOROUGH else 2), 2)
    return dict(name=l.name, file=l.mod.short, kind=l.kind, qual=l.qual, error=r.error, vacuous=r.vacuous, paths=r.paths, checks=r.checks,
                trivial=r.trivial, gen_s=r.time, funcs=sorted(r.funcs), contracts=sorted(r.contracts_used), trusted=sorted(r.trusted),
                obs=[dict(name=o.name, where=str(o.where), status=o.status, solver=o.solver, time=o.time, info=o.model or "") for o in r.obs])


def again(name):
    """a proof attempt that got stuck is repeated once from scratch under another hash seed (z3's search depends on the order)"""
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), PROP, "--prove", name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                            env=dict(os.environ, PYTHONHASHSEED="3"), start_new_session=True)


def prove_all(todo, ld, lemmas):
    out, live, queue, started, tried = {}, {}, list(todo), {}, {}
    while queue or live:
        while queue and len(live) < max(1, PROCS - 2) and time.time() < DEADLINE:
            l = queue.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(rd)
                    res = prove_lemma(ld, lemmas, l)
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(res, f)
                except BaseException as x:      # noqa
                    try:
                        with os.fdopen(wr, "wb") as f:
                            pickle.dump(dict(name=l.name, crash=f"{type(x).__name__}: {x}"), f)
                    except BaseException:
                        pass
                finally:
                    os._exit(0)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            os.close(wr)
            live[rd] = (l, pid, b"")
            started[rd] = time.time()
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for rd in rs:
            l, pid, buf = live[rd]
            d = os.read(rd, 1 << 20)
            if d:
                live[rd] = (l, pid, buf + d)
                continue
            os.close(rd)
            del live[rd]
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            try:
                out[l.name] = pickle.loads(buf)
            except Exception:
                out[l.name] = dict(name=l.name, crash="verifier process died")
        for rd, (l, pid, _) in list(live.items()):
            if time.time() - started[rd] > STUCK and l.name not in tried:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(rd)
                del live[rd]
                p = tried[l.name] = again(l.name)
                rd = os.dup(p.stdout.fileno())
                live[rd] = (l, p.pid, b"")
                started[rd] = time.time()
        if time.time() > DEADLINE:
            for rd, (l, pid, _) in list(live.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(rd)
                out[l.name] = dict(name=l.name, crash="deadline")
            for l in queue:
                out[l.name] = dict(name=l.name, crash="deadline")
            break
    return out


# ------------------------------------------------------------------ run time
def start_rt(prop):
    os.makedirs("evidence", exist_ok=True)
    ps = []
    for s in range(RT_SHARDS):
        o = os.path.join(HERE, "evidence", f"{prop}.rt{s}.tmp")
        if os.path.exists(o):
            os.unlink(o)
        p = subprocess.Popen(["bash", os.path.join(HERE, "rt.sh"), "--prop", prop, "--seconds", str(RT_SECONDS), "--seed", str(SEED),
                              "--shard", f"{s}/{RT_SHARDS}", "--out", o, "--maxfail", "3"],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        ps.append((p, o))
    return ps


def finish_rt(ps):
    res, fails, errs, broken = {}, [], {}, []
    for p, o in ps:
        try:
            err = p.communicate(timeout=max(5, RT_SECONDS + 150 - (time.time() - T0)))[1].decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            broken.append(("a contract evaluation did not terminate", ""))
            continue
        if not os.path.exists(o):
            broken.append((f"run-time checker stopped with code {p.returncode}", tail(err)))
            continue
        d = json.load(open(o))
        os.unlink(o)
        for n, r in d["results"].items():
            t = res.setdefault(n, dict(evaluations=0, skipped=0, checks=0, distinct=0, samples=[], proved=r["proved"]))
            for k in ("evaluations", "skipped", "checks", "distinct"):
                t[k] += r[k]
            t["samples"] += r["samples"][:1]
        fails += d["fails"]
        broken += [(f"{n}: {m.splitlines()[0]}", m) for n, m in d.get("gone", [])]
        for e in d["import_errors"]:
            errs[e[0]] = e
    return res, fails, errs, broken


def main():
    findings = json.load(open("known_findings.json"))
    ps = start_rt(PROP)
    ld, lemmas = verify.load(os.path.join(HERE, "contracts"), REPO)
    mine = [l for l in lemmas if PROP in l.props]
    todo = [l for l in mine if l.symbolic and (l.tier == "quick" or THOROUGH)]
    proofs = prove_all(todo, ld, lemmas)
    rt, fails, errs, broken = finish_rt(ps)

    bad = []                                    # (lemma, what, detail)
    nobs = ndis = ntriv = 0
    funcs, trusted, backends, cons, solver_s, vac = set(), set(), {}, set(), 0.0, []
    for l in todo:
        r = proofs.get(l.name, dict(crash="missing"))
        if r.get("crash"):
            bad.append((l, "proof attempt ended: " + r["crash"], ""))
            nobs += 1
            continue
        funcs |= set(r["funcs"])
        cons |= set(r["contracts"])
        trusted |= set(r["trusted"])
        if r["error"]:
            bad.append((l, r["error"], ""))
            nobs += 1
        if r["vacuous"]:
            bad.append((l, "contract is vacuous (no path reaches its checks)", ""))
        for o in r["obs"]:
            nobs += 1
            solver_s += o["time"] or 0
            if o["status"] == "unsat":
                ndis += 1
                backends[o["solver"]] = backends.get(o["solver"], 0) + 1
            else:
                bad.append((l, f"obligation not discharged: {o['name']} at {o['where']}", o["info"]))
        nobs += r["trivial"]
        ndis += r["trivial"]
        ntriv += r["trivial"]
    os.makedirs("evidence/replay", exist_ok=True)
    vio = []
    kn = [k for k in findings.get("known", []) if k["property"] == PROP]
    # concrete failures first
    for f in fails:
        k = next((k for k in kn if k.get("lemma") == f["lemma"] and k["match"] in f["message"]), None)
        if k is not None:
            continue
        path = f"evidence/replay/{PROP}-{f['lemma']}.json"
        json.dump(dict(property=PROP, **f, how_to_replay=f"bash rt.sh --replay {path}"), open(path, "w"), indent=1)
        vio.append((path, False, f"{f['lemma']}: {f['message'].splitlines()[0]}"))
    for n, (fn, msg, tb) in sorted(errs.items()):
        path = f"evidence/replay/{PROP}-import.json"
        json.dump(dict(property=PROP, contract_file=fn, message=msg, traceback=tb), open(path, "w"), indent=1)
        vio.append((path, True, f"contracts/{fn} cannot be evaluated against the code: {msg}"))
    for what, err in broken:
        path = f"evidence/replay/{PROP}-rt.json"
        json.dump(dict(property=PROP, message=what, stderr=err), open(path, "w"), indent=1)
        vio.append((path, True, what))
    if bad:
        path = f"evidence/replay/{PROP}-obligations.json"
        json.dump(dict(property=PROP, failed=[dict(contract=f"contracts/{l.mod.short}.py:{l.name}", target=l.qual, what=w, verifier_output=i)
                                              for l, w, i in bad]), open(path, "w"), indent=1)
        vio.append((path, True, f"{bad[0][0].name}: {tail(bad[0][1], 300)}"))
    bounded = {n: r for n, r in rt.items() if not r["proved"]}
    level = "proof" if todo else "exploration"
    ev = sum(r["evaluations"] for r in rt.values())
    dist = sum(r["distinct"] for r in rt.values())
    samples = [dict(contract=n, input=s) for n, r in rt.items() for s in r["samples"][:1]][:8]
    cov = dict(evaluations=ev, distinct_nontrivial=dist,
               rule="inputs drawn per contract from its declared types and generators, sizes growing from 1 (boundary values, ties, source "
                    "constants +-1 included); counted when every precondition held, distinct by full input",
               samples=samples or ["none"], contract_clause_evaluations=sum(r["checks"] for r in rt.values()),
               bounded_contracts={n: dict(evaluations=r["evaluations"], distinct=r["distinct"], note="bounded: executed, not proved")
                                  for n, r in bounded.items()})
    if todo:
        cov.update(obligations=nobs, discharged=ndis, discharged_by_execution=ntriv,
                   checker_cmd=f"python3-vt -m pyvc.verify --prop {PROP}",
                   trusted_base=sorted(trusted) + [
                       "pyvc (VC generator in /verif/pyvc) and z3", "Python/NumPy operations as modelled in pyvc/lib.py and pyvc/npmod.py",
                       "floats treated as mathematical reals, ints unbounded"],
                   contracts_proved=sorted(f"{l.mod.short}.{l.name}" for l in todo), functions_under_contract=sorted(funcs),
                   callee_contracts_applied=sorted(cons), back_ends=backends, solver_s=round(solver_s, 1))
    json.dump(dict(property=PROP, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
                   assumptions=["floating point treated as real arithmetic in proofs; executed with IEEE doubles at run time",
                                "contracts listed under bounded_contracts are checked by execution only"],
                   wall_s=round(time.time() - T0, 1), violations=len(vio)), open(f"evidence/{PROP}.json", "w"), indent=1)
    for k in kn:
        print(f"KNOWN-FINDING: property={PROP} {k['what']}")
    print(f"{PROP}: {ndis}/{nobs} obligations discharged over {len(todo)} contracts, {ev} contract executions "
          f"({len(bounded)} bounded contracts), {time.time()-T0:.0f} s")
    never = [n for n, r in rt.items() if not r["evaluations"]]
    if never:
        print("note: never executed:", ", ".join(never))
    if vio:
        conc = [v for v in vio if not v[1]]
        for path, nf, what in (conc or vio):
            print("  ", what)
        path, nf, _ = (conc or vio)[0]
        print(f"VIOLATION property={PROP} replay={os.path.join(HERE, path)}" + (" no-failing-input-found" if nf else ""))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    if "--prove" in sys.argv:
        ld_, lemmas_ = verify.load(os.path.join(HERE, "contracts"), REPO)
        l_ = next(x for x in lemmas_ if x.name == sys.argv[3] and PROP in x.props)
        o_ = os.dup(1)
        os.dup2(2, 1)
        with os.fdopen(o_, "wb") as f_:
            pickle.dump(prove_lemma(ld_, lemmas_, l_), f_)
        sys.exit(0)
    main()
