"""Report object shared by all rules + known-finding handling + evidence."""
import json, os, sys, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("HX_EVID", VERIF + "/evidence")


class Report:
    current = None

    def __init__(self, prop, level):
        Report.current = self
        self.prop = prop
        self.level = level
        self.violations = []  # (key, msg)
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.rules = []
        self.samples = {}

    def rule(self, txt):
        self.rules.append(txt)

    def violate(self, key, msg, where=""):
        if (key, msg) not in [(k, m) for k, m, _ in self.violations]:
            self.violations.append((key, msg, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, item, cap=60):
        l = self.samples.setdefault(name, [])
        if len(l) < cap:
            l.append(item)

    def floor(self, name, n):
        """instance-count floor: fewer instances than confirmed by hand = the
        rule no longer sees what it is about -> fail closed"""
        if self.counts.get(name, 0) < n:
            self.violate("floor:" + name, "only %d instance(s) of '%s' found, at least %d expected: the construct the rule is about is gone" % (self.counts.get(name, 0), name, n))

    def assume(self, txt):
        self.assumptions.append(txt)

    def note(self, txt):
        self.notes.append(txt)


def load_known():
    known = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN property=(\S+) key=(.+?) :: (.*)$", l)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def finish(rep, tier, seed, t0, facts_info):
    known = load_known().get(rep.prop, {})
    os.makedirs(EVID, exist_ok=True)
    bad = []
    kf = []
    for key, msg, where in rep.violations:
        if key in known:
            kf.append((key, known[key]))
        else:
            bad.append((key, msg, where))
    for key, what in dict(kf).items():
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, what))
    replay = EVID + "/replay-%s.txt" % rep.prop
    if bad:
        with open(replay, "w") as f:
            f.write("property %s: %d violation(s) found by static analysis of /repo's current source\n\n" % (rep.prop, len(bad)))
            for key, msg, where in bad:
                f.write("- key: %s\n  at:  %s\n  %s\n\n" % (key, where, msg))
            f.write("rules applied:\n" + "\n".join("  * " + r for r in rep.rules) + "\n")
    elif os.path.exists(replay):
        os.remove(replay)
    cov = {
        "explanation": "static analysis of the type-checked program (rustc MIR of /repo's current tree); no code is run. " + " ".join(rep.rules),
        "rules": rep.rules,
        "analysed": rep.counts,
        "sites": rep.samples,
        "samples": [x for l in rep.samples.values() for x in l][:40],
        "notes": rep.notes,
    }
    cov.update(facts_info)
    ev = {
        "property": rep.prop,
        "tier": tier,
        "seed": seed,
        "level": rep.level,
        "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
        "assumptions": rep.assumptions,
        "violations": len(bad),
        "violation_list": [{"key": k, "what": m, "where": w} for k, m, w in bad],
        "known_findings": sorted(set(k for k, _ in kf)),
    }
    with open(EVID + "/%s.json" % rep.prop, "w") as f:
        json.dump(ev, f, indent=1)
    for key, msg, where in bad:
        print("  [%s] %s  (%s)" % (key, msg, where))
    if bad:
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    print("OK property=%s %s" % (rep.prop, json.dumps(rep.counts)))
    return 0
