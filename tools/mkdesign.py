#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from properties.jsonl,
the RULE/ASSUME texts in harness/src/props and the seeded changes."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ORACLE = {
 "C01": ("leap-year predicate and month lengths written out in the oracle", "every (y,m,d) around all years -4810..4000; tests construct a few dozen valid dates and no invalid ones"),
 "C02": ("64-bit integer day count (era/day-of-era algorithm, unrelated to the library's), and successor day = +1", "every day of ~9800 years plus far years; tests stop at 1958..2100"),
 "C03": ("integer civil-from-days; instant compared in double-double with a bound from the rounding of the two parts as given", "the library's behaviour depends on how a date is split in two; tests use one split"),
 "C04": ("double-double fraction, monotonicity over pairs, accepted range", "every second and its neighbours: carries (59.999.. -> next minute) are at isolated doubles"),
 "C05": ("a strict parser of the documented text, then equality to the printed precision", "width/sign/rounding/carry of the text depend on the value"),
 "C06": ("list of IERS/USNO offsets and drift rates in refm.rs", "every day of 1950-2060, tests check about 15 dates"),
 "C07": ("double-double sum; which part may change; conversions there and back", "precision loss depends on part order and signs; tests use one order, UT1 offsets of one sign"),
 "C08": ("double-double reduction, range [0,2pi), equivalence", "ends of the range are single doubles"),
 "C09": ("double-double component formulas, swap/scale/negate relations, cosine of the angle", "degenerate directions (parallel, tiny, huge)"),
 "C10": ("double-double products, algebraic laws", "non-commuting pairs, quarter turns, tiny angles"),
 "C11": ("double-double formula", "dates before 2000 and far away, all splits; tests only 2000-2100"),
 "C12": ("double-double product of three rotations, proper rotation", "signs and zeros of the pole; tests only positive pole coordinates"),
 "C13": ("double-double IERS polynomials (own coefficients)", "times before 2000 and far away where higher terms matter"),
 "C14": ("double-double 77-term series from series_tab.rs", "as C13: terms whose effect grows with time are invisible near 2000 at test tolerance"),
 "C15": ("double-double IAU expressions, R_bp = R_p R_b, proper rotations", "as C14"),
 "C16": ("double-double product of the rotations, both for the model's and for supplied nutation", "supplied nutation up to radians makes every sign visible"),
 "C17": ("double-double 66-term series minus XY/2", "as C14, X and Y free"),
 "C18": ("closed form without angles in double-double, proper rotation, third row = CIP", "special directions (pole, axes, rim)"),
 "C19": ("full double-double chain", "independent TT and UT1, non-zero poles of both signs"),
 "C20": ("double-double evaluation of the 2100-term series from the published Fortran coefficients (epv_tab.rs)", "every coefficient matters at some date; tests compare a handful of dates"),
 "C21": ("five-point derivative of the library's own position; Almanac's formula", "independent of any table, so a wrong table in both places is seen"),
 "C22": ("double-double surface point + h * normal, ellipsoid equation", "northern and southern, poles, other ellipsoids; tests southern WGS84 only"),
 "C23": ("double-double forward conversion of the result; round trip", "axis, equator, signed zeros, other ellipsoids, below the surface"),
 "C24": ("the stated predicate on (a,f); conversions with the accepted converter", "NaN, infinities, both ends of f"),
 "C25": ("double-double conversion modulo a turn, ranges, round trips", "poles, date line, one-ulp neighbours"),
 "C26": ("double-double chain from civil time to angle (refm::sun_chain), each field also from the preceding one; seven cases of eight take ephemeris and matrix from the library (C19, C20 decide those), so that rare conjunctions in the calculator itself are met; Almanac formula", "tests have three instants at one place"),
 "C27": ("a fresh calculator (bit for bit); clock- and site-shift relations", "state is only visible over histories"),
 "C28": ("the same calls in other orders, with fresh objects and on other threads (bit for bit)", "caches and globals are visible only over particular histories"),
 "C29": ("no panic with overflow checks and debug assertions; finite results; refusal of invalid input", "whole accepted domain"),
 "C30": ("strict parser of the output and the double-double reference; exit status", "tools have no tests"),
}
src = "".join(open(f).read() for f in sorted(glob.glob(V + "/harness/src/props/*.rs")))
rules, cur = {}, None
for line in src.split("\n"):
    m = re.search(r'const ID: &\'static str = "(C\d\d)"', line)
    if m: cur = m[1]; rules[cur] = ["", ""]
    m = re.search(r'const RULE: &\'static str = "(.*)";', line)
    if m: rules[cur][0] = m[1].replace('\\"', '"')
    m = re.search(r"const ASSUME: &'static \[&'static str\] = &\[(.*)\];", line)
    if m: rules[cur][1] = "; ".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m[1]))
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; o = ORACLE[i]
    out.append(f"### {i} {p['title']}\n\n- Cases: {rules[i][0]}\n- Oracle: {o[0]}.\n- Beyond the tests: {o[1]}.")
    if rules[i][1]: out.append(f"- Not decided / assumed: {rules[i][1]}.")
    out.append(f"- Seeded changes caught: {', '.join(seeds.get(i, [])) or 'none planted'}.\n")
f = V + "/DESIGN.md"
s = open(f).read()
a, b = "<!-- per property -->", "<!-- end -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(f, "w").write(s)
