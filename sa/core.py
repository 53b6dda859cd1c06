"""Shared machinery of the checks: obligations, violations, known findings, evidence."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def where(I=None, f=None):
    if I is not None:
        loc = I.loc()
        if loc:
            return "%s:%s" % (os.path.basename(str(loc[0])), loc[1])
    if f is not None:
        return "%s()" % f.name
    return "?"


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = {}          # rule -> [text]
        self.failed = []       # dicts
        self.notes = []
        self.counts = {}
        self.minimum = {}

    def ok(self, rule, text):
        self.obl.setdefault(rule, []).append(text)

    def bad(self, rule, where, what, key):
        """key: identity of the construct that fails, free of line numbers."""
        self.obl.setdefault(rule, []).append(what)
        for d in self.failed:
            if d["rule"] == rule and d["key"] == key:
                return
        self.failed.append({"rule": rule, "where": where, "what": what, "key": key})

    def check(self, cond, rule, where, good, badtext, key):
        if cond:
            self.ok(rule, good)
        else:
            self.bad(rule, where, badtext, key)
        return cond

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, rule, n):
        """The rule must have looked at no fewer than n constructs, otherwise it has lost its anchor."""
        self.minimum[rule] = n

    def note(self, s):
        self.notes.append(s)


def parallel(R, items, fn):
    """fn(report, item) for every item in processes of their own; what they report is merged in the order of the items."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")

    def run(item, conn):
        sub = Report(R.prop)
        try:
            fn(sub, item)
            conn.send(("ok", sub.obl, sub.failed, sub.notes, sub.counts))
        except Exception as e:      # the parent raises it again
            import traceback
            conn.send(("error", type(e).__name__, str(e), traceback.format_exc()))
        conn.close()
    jobs, out = list(items), {}
    todo, live = list(range(len(jobs))), {}
    n = min(8, os.cpu_count() or 1)
    while todo or live:
        while todo and len(live) < n:
            k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run, args=(jobs[k], b))
            p.start()
            b.close()
            live[k] = (p, a)
        from multiprocessing.connection import wait
        for c in wait([a for p, a in live.values()]):
            k = next(k for k, (p, a) in live.items() if a is c)
            try:
                out[k] = c.recv()
            except EOFError:
                out[k] = ("error", "AnalysisBroken", "a worker died", "")
            live.pop(k)[0].join()
    for k in range(len(jobs)):
        r = out[k]
        if r[0] == "error":
            if r[1] == "AnalysisBroken":
                from ir import AnalysisBroken
                raise AnalysisBroken(r[2])
            raise RuntimeError(r[3])
        for rule, texts in r[1].items():
            for t in texts:
                R.ok(rule, t)
        for d in r[2]:
            if not any(x["rule"] == d["rule"] and x["key"] == d["key"] for x in R.failed):
                R.failed.append(d)
        R.notes += r[3]
        for n2, v in r[4].items():
            R.count(n2, v)


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.rstrip("\n")
            if ln.startswith("finding: "):
                head, _, text = ln[len("finding: "):].partition(" -- ")
                g = re.fullmatch(r"property=(\S+) rule=(.+?) key=(.+)", head.strip())
                if g is None:
                    raise ValueError("known_findings.txt: " + ln)
                out[g.groups()] = text
    return out


def finish(R, level, t0, mod, trusted, assumptions):
    kf = known_findings()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    for r, n in R.minimum.items():
        have = len(R.obl.get(r, ()))
        if have < n:
            R.bad(r, "-", "rule %s examined only %d constructs, at least %d expected: the mechanism it "
                  "analyses is gone or no longer recognisable" % (r, have, n), "lost-anchor")
    known, new = [], []
    for d in R.failed:
        k = (R.prop, d["rule"], d["key"])
        (known if k in kf else new).append(d)
    nobl = sum(len(v) for v in R.obl.values())
    cov = {
        "obligations": nobl,
        "discharged": nobl - len(R.failed),
        "checker_cmd": "python3 check.py " + R.prop,
        "trusted_base": trusted,
        "explanation": "Static analysis of the LLVM IR that clang emits for the Makefile's own compile commands on the "
                       "current /repo tree. Nothing of /repo is executed. Rules applied, with the constructs each examined, "
                       "are under `rules`.",
        "rules": {r: {"examined": len(v), "samples": sorted(set(v))[:12]} for r, v in sorted(R.obl.items())},
        "known_findings": [d["what"] for d in known],
        "violations_found": [d["where"] + ": " + d["what"] for d in new],
    }
    if R.counts:
        cov["counts"] = R.counts
    if mod is not None:
        cov["analysed_units"] = len(mod.units)
        cov["analysed_functions"] = len(mod.own)
        cov["analysed_instructions"] = sum(len(b.ins) for f in mod.funcs.values() for b in (f.blocks or ()))
        cov["inlined_helpers"] = sorted(mod.inlined)
    if R.notes:
        cov["notes"] = R.notes[:40]
    cov["samples"] = [x for v in R.obl.values() for x in v[:3]][:20]
    ev = {"property": R.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, R.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s [%s] %s: %s" % (R.prop, k["rule"], k["where"], k["what"]))
    rp = os.path.join(d, R.prop + ".violations.txt")
    if new:
        with open(rp, "w") as fh:
            for k in new:
                fh.write("[%s] %s: %s (key=%s)\n" % (k["rule"], k["where"], k["what"], k["key"]))
        for k in new[:20]:
            print("  [%s] %s: %s  key=%s" % (k["rule"], k["where"], k["what"], k["key"]))
        print("VIOLATION property=%s replay=%s" % (R.prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("OK property=%s obligations=%d known=%d (%.1fs)" % (R.prop, nobl, len(known), time.time() - t0))
    return 0
