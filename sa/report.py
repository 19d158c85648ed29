"""findings, evidence, exit code"""

from __future__ import annotations
import hashlib
import json
import os
import sys
import time
from typing import Dict, List, Optional, Any

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, prop: str, tier: str):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.rules: Dict[str, Dict[str, Any]] = {}
        self.findings: List[Dict[str, Any]] = []
        self.samples: List[str] = []
        self.functions: set = set()
        self.paths = 0
        self.assumptions: List[str] = []
        self.errors: List[str] = []

    def rule(self, name: str, text: str):
        self.rules.setdefault(name, {"text": text, "obligations": 0, "discharged": 0})

    def analysed(self, *funcs):
        for f in funcs:
            self.functions.add(getattr(f, "where", str(f)))

    def flow(self, fl, states: int = 0):
        for fr, _ in fl.env.keys():
            self.functions.add(fr.func.where)
        self.paths += states
        if fl.truncated:
            self.errors.append(f"analysis of {fl.entry.where} exceeded its budget")

    def ok(self, rule: str, what: str = ""):
        r = self.rules[rule]
        r["obligations"] += 1
        r["discharged"] += 1
        if what and len(self.samples) < 40:
            self.samples.append(f"{rule}: {what}")

    def bad(self, rule: str, where: str, construct: str, msg: str, line: int = 0, witness: Optional[List[str]] = None):
        """where: file:qualname; construct: stable id of the construct (no line numbers)"""
        r = self.rules[rule]
        key = f"{rule}|{where}|{construct}"
        if any(f["key"] == key for f in self.findings):
            return
        r["obligations"] += 1
        self.findings.append(
            {
                "key": key,
                "rule": rule,
                "rule_text": r["text"],
                "where": where,
                "line": line,
                "construct": construct,
                "msg": msg,
                "witness": witness or [],
            }
        )

    def check(self, rule, cond, where, construct, msg, line=0, witness=None):
        if cond:
            self.ok(rule, f"{where}: {construct}")
        else:
            self.bad(rule, where, construct, msg, line, witness)
        return bool(cond)

    def need(self, rule: str, n: int, min_n: int, what: str):
        """vacuity guard: the rule must have found its subjects"""
        if n < min_n:
            self.errors.append(f"rule {rule}: expected at least {min_n} {what}, found {n} (anchor vanished?)")

    def finish(self, seed: int) -> int:
        known_file = os.path.join(VERIF, "known_findings.json")
        known = {}
        if os.path.exists(known_file):
            for e in json.load(open(known_file))["findings"]:
                if e["property"] == self.prop and e.get("status") == "known":
                    known[e["key"]] = e
        viol = []
        for f in self.findings:
            if f["key"] in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[f['key']]['what']}")
            else:
                viol.append(f)
        os.makedirs(EVID, exist_ok=True)
        for f in viol:
            h = hashlib.md5(f["key"].encode()).hexdigest()[:8]
            p = os.path.join(EVID, f"replay-{self.prop}-{h}.json")
            with open(p, "w") as fp:
                json.dump(f, fp, indent=1)
            print(f"{f['where']}:{f['line']}: [{f['rule']}] {f['msg']}")
            for w in f["witness"][-12:]:
                print(f"    via {w}")
            print(f"VIOLATION property={self.prop} replay={p}")
        obl = sum(r["obligations"] for r in self.rules.values())
        dis = sum(r["discharged"] for r in self.rules.values())
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source (AST -> CFG -> dataflow). Each rule below was "
                "instantiated at every construct it applies to; an obligation is one such instance.",
                "obligations": obl,
                "discharged": dis,
                "rules": {k: dict(v) for k, v in self.rules.items()},
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:200],
                "automaton_states_explored": self.paths,
                "samples": self.samples,
                "known_findings": sorted(k for k in known if any(f["key"] == k for f in self.findings)),
                "errors": self.errors,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        print(
            f"{self.prop} [{self.tier}]: {obl} obligations, {dis} discharged, {len(self.functions)} functions,"
            f" {len(viol)} violations, {ev['wall_s']}s"
        )
        if viol:
            return 1
        if self.errors:
            for e in self.errors:
                print(f"ERROR {self.prop}: {e}", file=sys.stderr)
            return 2
        return 0
