"""Default parameters, read from spec/Defaults.tla (the oracle's table, not the code's)."""
import os, re
_t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Defaults.tla")).read()


def _table(name):
    body = re.search(name + r" == \[(.*?)\] \]", _t, re.S).group(1) + "]"
    return {m: {k: float(v) for k, v in re.findall(r'(\w+) \|-> "([^"]*)"', r)} for m, r in re.findall(r"(\w+) \|-> \[(.*?)\]", body, re.S)}


PARAMS, LIMITS, NOMINAL = _table("MotorParameterDefaults"), _table("MotorLimitDefaults"), _table("MotorNominalDefaults")
