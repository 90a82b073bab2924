"""Independent model of the battery report: p-value text, verdict, grade, and the row <-> executed test matching."""
import math
DBL_MIN = 2.2250738585072014e-308


def ptext(p, alpha=None):
    if alpha is None:
        alpha = 1.0 - p
    if math.isnan(p) or math.isnan(alpha):
        return "NAN"
    if p < 0 or p > 1:
        return "???"
    if p < DBL_MIN:
        return "0"
    if 1e-3 <= p <= 0.999:
        return "%.3f" % p
    if p < 1e-3:
        return "%.2e" % p
    if alpha > DBL_MIN:
        return "1 - %.2e" % alpha
    return "1"


def verdict(p):
    if p < 1e-10 or p > 1 - 1e-10:
        return "FAIL"
    if p < 1e-3 or p > 1 - 1e-3:
        return "SUSPICIOUS"
    return "Ok"


def match_row(row, tests):
    """executed stand-ins whose result is the one shown in the row"""
    return [t for t in tests if "%g" % float(t["x"]) == row[2] and ptext(float(t["p"])) == row[3]]
