"""The properties and the obligations that decide them. gen.py writes properties.jsonl, MANIFEST.json and
DESIGN.md from this table."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from cbmc import Ob

PROPS = {}
NA = {}


def P(id, title, statement, over, forall, why, files, mech, observe, explain, obs, assume=(), level="other", tech="", hook=False, workers=7):
    PROPS[id] = dict(title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, observe=observe,
                     explain=explain, obs=obs, assume=list(assume), level=level, hook=hook, workers=workers,
                     tech=tech or "bounded model checking of the real C code (goto-cc + CBMC, SAT), counterexamples replayed natively under ASan/UBSan")


def N(id, title, statement, over, forall, why, files, mech, observe, reason):
    NA[id] = dict(title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, observe=observe, reason=reason, hook=False)


import importlib
for _m in sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_d")) if f.endswith(".py")):
    _p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_d", _m + ".py")
    exec(compile(open(_p).read(), _p, "exec"))
