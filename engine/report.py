import json, os, re, time, traceback
from collections import OrderedDict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    """Collects obligations of one property.

    ob(rule, key, ok, msg, where): one decided instance of a rule.
    floor(rule, n): the rule must have been decided on at least n instances
    (numbers counted by hand on the tree the machinery was written for).
    """

    def __init__(self, prop):
        self.prop = prop
        self.rules = OrderedDict()   # rule -> text
        self.obs = []                # (rule, key, ok, msg, where)
        self.floors = {}
        self.notes = []
        self.entries = 0
        self.nodes = 0
        self.calls = 0
        self.fns = set()
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, ok, msg="", where=""):
        self.obs.append((rule, key, bool(ok), msg, where))
        return bool(ok)

    def floor(self, rule, n):
        self.floors[rule] = n

    def saw(self, flat):
        """account for an analysed flattened graph"""
        if flat.entry.id in self.fns:
            return
        self.fns.add(flat.entry.id)
        self.entries += 1
        self.nodes += len(flat.reach)
        self.calls += len(flat.callsites)

    def count(self, rule):
        return sum(1 for o in self.obs if o[0] == rule)

    def violations(self):
        v = OrderedDict()
        for rule, key, ok, msg, where in self.obs:
            if not ok:
                k = "%s:%s" % (rule, key)
                v.setdefault(k, (rule, key, msg, where))
        for rule, n in self.floors.items():
            c = self.count(rule)
            if c < n:
                v.setdefault("%s:<count>" % rule, (rule, "<count>", "rule decided only %d instance(s), %d were confirmed: the checked construct is gone" % (c, n), ""))
        return v


def load_known():
    """known_findings.txt: lines `known: property=P01 key=<rule:key> -- text`
    and `fixed: property=P01 <commit> <what failed>` (the latter suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) key=(\S+) -- (.*)$", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out
