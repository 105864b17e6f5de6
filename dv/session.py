"""One check of one property: proof units, concrete runs of the real code, verdict, evidence."""
import hashlib, json, os, random, signal, sys, time, traceback
import dump, logic, mine
from term import *
from logic import *
from val import *
from sym import Engine, State, Unsupported, Ob
import probe as P_

VERIF = dump.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class OutOfTime(Exception):
    pass


class Deadline(Exception):
    """the concrete runs have used up their time"""


class limited:
    """at most so many seconds for the enclosed computation (OutOfTime)"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def onalarm(*a):
            raise OutOfTime()
        self.old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(max(1, int(self.seconds)))

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Proofs:
    """an error of the machinery outside a unit: the proof counts as not done, the concrete runs follow"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None or not issubclass(t, Exception) or issubclass(t, (dump.BuildError, Deadline)):
            return False
        traceback.print_exception(t, e, tb)
        self.S.units.append({"cfg": "", "name": "internal", "obs": [], "status": "unsupported", "detail": "%s: %s" % (t.__name__, e),
                             "wall": 0.0})
        return True


class Session:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.t0 = time.time()
        self.units = []
        self.trusted, self.inlined, self.assumed = set(), set(), []
        self.viol = []
        self.known = []
        self.audit = {"cases": 0, "distinct": set(), "samples": [], "rules": []}
        self.notes = []
        self.hints = []          # inputs suggested by failed obligations / path conditions
        self.contract_report = []
        self.dumps = {}
        self.probes = {}
        self.extra = {}
        self.vacuous = []
        self.keep = None         # kinds of obligations that count (None: all)
        self.blind = False
        self.only_failures = False
        self.bad = []            # failing concrete runs
        q = tier == "quick"      # seconds for all proofs, and the end of the concrete runs
        self.proof_s, self.audit_s = (330, 560) if q else (1500, 10000)
        self.mined, self.mined_reals = None, []
        self.executed = {}       # configuration -> functions whose bodies were analysed

    # ------------------------------------------------------------ proof units
    def proofs(self):
        return Proofs(self)

    def dump(self, cfg):
        if cfg not in self.dumps:
            self.dumps[cfg] = dump.dump(cfg)
        return self.dumps[cfg]

    def unit(self, cfg, name, fn, contracts=None, budget=60, engine=None):
        """run one proof; fn(engine) adds obligations to engine.obs"""
        u = {"cfg": cfg, "name": name, "obs": [], "status": "ok", "detail": "", "wall": 0.0}
        self.units.append(u)
        t = time.time()
        eng = None
        budget = min(budget, self.t0 + self.proof_s - t)
        try:
            if budget < 1:
                raise OutOfTime()
            d = self.dump(cfg)
            with limited(budget):
                eng = engine(d) if engine else Engine(d, dict(contracts or {}))
                eng.blind = self.blind
                fn(eng)
        except Unsupported as e:
            u["status"], u["detail"] = "unsupported", str(e)[:300]
        except OutOfTime:
            u["status"], u["detail"] = "timeout", "no result within %d s" % max(budget, 0)
        except RecursionError:
            u["status"], u["detail"] = "unsupported", "recursion"
        except dump.BuildError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            u["status"], u["detail"] = "unsupported", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200],
                                                                          os.path.basename(tb.filename), tb.lineno)
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
        u["wall"] = time.time() - t
        if eng is not None:
            u["obs"] = [o for o in eng.obs if self.keep is None or o.kind in self.keep]
            u["executed"] = set(eng.executed)
            self.executed.setdefault(cfg, set()).update(eng.executed)
            self.trusted |= eng.trusted
            self.inlined |= eng.inlined
            u["contracts"] = sorted(eng.used_contracts)
            for n in eng.notes:
                if n not in self.notes:
                    self.notes.append(n)
            for o in u["obs"]:
                if o.verdict.ok is not True and engine is None:
                    self.hint_from(o)
            self.hints += getattr(eng, "hints", [])
            if u["status"] == "ok" and not eng.obs:
                u["status"], u["detail"] = "unsupported", "no obligation generated"
        if os.environ.get("DV_DEBUG"):
            print("  unit %-8s %-60s %-11s %3d/%3d %.2fs %s" % (
                cfg, name, u["status"], sum(o.verdict.ok is True for o in u["obs"]), len(u["obs"]), u["wall"], u["detail"]))
            for o in u["obs"]:
                if o.verdict.ok is not True:
                    print("      ", o.kind, o.where, o.text[:160], o.verdict.ok, o.verdict.detail[:200])
        return u

    def hint_from(self, ob):
        """concrete inputs related to a failed obligation"""
        es = []
        if ob.verdict.env is not None:
            es.append(ob.verdict.env)
        rng = random.Random(self.seed)
        for i in range(3):
            try:
                e = sample_env([], list(ob.pc), rng, seed=i, tries=60)
            except logic.NumErr:
                e = None
            if e is not None:
                es.append(e)
        for e in es:
            d = {}
            for a, v in e.v.items():
                nm = ATOMS[a].name
                if isinstance(nm, str):
                    d[nm] = float(v)
            if d and d not in self.hints:
                self.hints.append(d)

    def mine(self):
        """inputs around the constants of the functions behind obligations that were not discharged"""
        if self.mined is not None:
            return
        self.mined = []
        if os.environ.get("DV_MINE") == "none":
            return
        ds, rs = [], []
        try:
            for cfg in sorted({u["cfg"] for u in self.units if u["cfg"]}):
                roots = set()
                for u in self.units:
                    if u["cfg"] == cfg and (os.environ.get("DV_MINE") or u["status"] != "ok" or any(o.verdict.ok is not True for o in u["obs"])):
                        roots |= u.get("executed", set())
                if not roots:
                    continue
                d = self.dump(cfg)
                i, f, w = mine.constants(d, mine.family(d, sorted(roots)))
                for t in (os.environ.get("DV_MINE") or "").split(","):     # development: extra constants
                    if "." in t or "e" in t and t != "none":
                        f[float(t)] = 1
                    elif t.isdigit():
                        i[int(t)] = 1
                    elif t:
                        w.add(t)
                ds += [n for n in mine.degrees(i, f, w) if n not in ds]
                rs += [v for v in mine.reals(i, f) if v not in rs]
        except Exception:
            traceback.print_exc()
        self.mined, self.mined_reals = ds, rs
        if ds:
            self.extra["degrees_suggested_by_constants"] = ds[:60]

    def degrees(self, cap, limit=40, lo=1):
        """degrees suggested by failed obligations and by the constants of the functions concerned"""
        self.mine()
        out = []
        for n in [int(h["n"]) for h in self.hints if isinstance(h.get("n"), (int, float)) and abs(h["n"]) < 1e18] + self.mined:
            if lo <= n <= cap and n not in out:
                out.append(n)
            if len(out) >= limit:
                break
        return out

    def values(self, lo, hi, limit=30):
        self.mine()
        return [v for v in self.mined_reals if lo < v < hi][:limit]

    def proved(self):
        return all(u["status"] == "ok" and all(o.verdict.ok is True for o in u["obs"]) for u in self.units)

    def refuted(self):
        return [(u, o) for u in self.units for o in u["obs"] if o.verdict.ok is False]

    def undecided(self):
        r = [(u, None) for u in self.units if u["status"] != "ok"]
        return r + [(u, o) for u in self.units for o in u["obs"] if o.verdict.ok is None]

    # ------------------------------------------------------------ concrete side
    def probe(self, cfg="all"):
        if cfg not in self.probes:
            self.probes[cfg] = P_.Probe(cfg)
        return self.probes[cfg]

    def case(self, key, sample=None):
        if time.time() > self.t0 + self.audit_s:
            self.notes.append("the concrete runs were cut short by the time limit")
            raise Deadline()
        if sum(bool(b) for b in self.bad) >= 8 and not self.only_failures:
            self.notes.append("the concrete runs ended after eight failures")
            raise Deadline()
        self.audit["cases"] += 1
        self.audit["distinct"].add(key)
        if sample and len(self.audit["samples"]) < 6:
            self.audit["samples"].append(sample)

    # ------------------------------------------------------------ verdicts
    def findings(self):
        out = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith("finding: property=%s " % self.pid):
                    out.append(l[len("finding: property=%s " % self.pid):])
        return out

    def known_finding(self, key, text):
        """a violation that the committed findings list (identified by key); else a violation"""
        for f in self.findings():
            if f.startswith("key=%s " % key):
                if key not in [k for k, _ in self.known]:
                    self.known.append((key, f.split(" ", 1)[1]))
                return True
        return False

    def violation(self, text, replay=None, found=True):
        self.viol.append({"text": text, "replay": replay or {}, "found": found})

    def finish(self):
        for p in self.probes.values():
            p.close()
        obs = [(u, o) for u in self.units for o in u["obs"]]
        total = len(obs) + sum(u["status"] != "ok" for u in self.units)
        disch = sum(o.verdict.ok is True for _, o in obs)
        hows = {}
        for _, o in obs:
            if o.verdict.ok is True:
                hows[o.verdict.how] = hows.get(o.verdict.how, 0) + 1
        kinds = {}
        for _, o in obs:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        level = LEVELS.get(self.pid, "proof")
        cov = {
            "obligations": total + self.extra.get("obligations", 0),
            "discharged": disch + self.extra.get("discharged", 0),
            "checker_cmd": "python3-vt check.py %s" % self.pid,
            "trusted_base": sorted(TRUST) + self.extra.get("trusted_base", []) +
            ["contract of %s" % t for t in sorted(self.trusted)],
            "functions_under_contract": sorted({u["name"] for u in self.units}),
            "functions_verified_through_their_callers": sorted(self.inlined),
            "obligation_kinds": kinds,
            "back_ends": hows,
            "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in logic.STATS.items()},
            "units": [{"unit": u["name"], "config": u["cfg"], "status": u["status"], "obligations": len(u["obs"]),
                       "discharged": sum(o.verdict.ok is True for o in u["obs"]), "wall_s": round(u["wall"], 2),
                       **({"detail": u["detail"]} if u["detail"] else {})} for u in self.units],
            "undecided": [{"unit": u["name"], "config": u["cfg"],
                           "what": (o.where + ": " + o.text[:160]) if o else u["detail"]} for u, o in self.undecided()][:40],
            "refuted": [{"unit": u["name"], "config": u["cfg"], "what": o.where + ": " + o.text[:160],
                         "counterexample": o.verdict.detail[:300]} for u, o in self.refuted()][:40],
            "callee_contracts": self.contract_report,
            "concrete_runs_of_the_real_code": {
                "label": "bounded; never counted as discharged",
                "evaluations": self.audit["cases"], "distinct_nontrivial": len(self.audit["distinct"]),
                "rule": "; ".join(self.audit["rules"]), "samples": self.audit["samples"][:6]},
        }
        for k, v in self.extra.items():
            if k not in ("obligations", "discharged", "trusted_base"):
                cov[k] = v
        if level == "other":
            cov.setdefault("explanation", self.extra.get("explanation", "see DESIGN.md"))
        if level == "exploration":
            cov["evaluations"] = self.audit["cases"]
            cov["distinct_nontrivial"] = len(self.audit["distinct"])
            cov["rule"] = "; ".join(self.audit["rules"])
            cov["samples"] = self.audit["samples"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": [FLOATS.get(self.pid, FLOATS[""])] + sorted(ASSUME) + self.assumed + self.notes, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, t in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        print("%s: %d/%d obligations discharged, %d undecided, %d refuted, %d concrete runs, %.1f s" % (
            self.pid, cov["discharged"], cov["obligations"], len(self.undecided()), len(self.refuted()), self.audit["cases"],
            time.time() - self.t0))
        if not self.viol:
            return 0
        # one line, the one with an input first
        v = sorted(self.viol, key=lambda v: not v["found"])[0]
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.pid)
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "violations": self.viol[:20], "how_to_replay":
                       "echo '<command>' | cargo run --offline --features all (in /verif/probe)"}, f, indent=1, default=str)
        print("  " + v["text"][:400])
        print("VIOLATION property=%s replay=%s%s" % (self.pid, rp, "" if v["found"] else " no-failing-input-found"))
        return 1


LEVELS = {}
TRUST = {
    "rustc (nightly) front end: MIR construction and constant evaluation",
    "mirdump (serialisation of MIR), dv symbolic engine and term normaliser",
    "z3 4.x, sympy factorisation (used only to propose factors, checked by re-expansion)",
}
BITS = "floating-point values are IEEE doubles, bit precise; no real-arithmetic reading is involved"
ROUND = "in the value obligations floating-point operations are exact real operations; "
FLOATS = {
    "C01": BITS, "C13": BITS,
    "C14": "the truth of every comparison of computed floating-point values (and of NaN) is unknown: both outcomes are followed",
    "C02": ROUND + "the mapped nodes' rounding has its own obligations, that of the final sum is checked by concrete runs",
    "C04": ROUND + "the sample points' rounding has its own obligations, that of the final sum is checked by concrete runs",
    "C05": ROUND + "rounding has its own obligations",
    "C09": ROUND + "rounding has its own obligations",
    "": ROUND + "rounding is checked by concrete runs only",
}
ASSUME = {
    "the integrand is a function of its argument that returns normally",
    "integers are machine integers: every overflow, division and index obligation is generated and discharged",
    "memory allocation succeeds",
}
