#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (one row per property)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = "generated-input search: absence of a violation is shown only for the cases counted in the evidence file. "
T = {
 "C01": ("property-based testing: enumeration of years x months x days plus generated triples, against an independent calendar predicate", "Every (y,m,d) in -5200..5200 with months and days around the valid range is enumerated, other years generated over all of i32. Trusts the leap-year rule written in the oracle."),
 "C02": ("property-based testing: day-by-day enumeration and generated dates, against an exact integer day count", "Every day of several thousand years is enumerated; the rest of i32 is sampled. Trusts the integer day-count algorithm of the oracle."),
 "C03": ("property-based testing: enumerated days and generated splits, against integer civil-from-days and double-double sums", "Each date is checked through 14 kinds of split in both orders; the instant is compared to within the rounding of the parts."),
 "C04": ("property-based testing: enumerated seconds and generated fractions, against double-double arithmetic and a monotonicity relation", "Every second of the day and its neighbouring doubles are enumerated."),
 "C05": ("property-based testing: print/parse round trip over generated values", "The parser is part of the harness and written from the stated formats only."),
 "C06": ("property-based testing: enumerated and generated dates against an independent leap-second and drift table", "All months 1950-2100 and their edges are enumerated. Trusts the table of IERS/USNO values in refm.rs, which was written from the published list."),
 "C07": ("property-based testing: generated two-part dates and offsets against exact (double-double) sums", "Bit-for-bit comparison of the untouched part; the sum within half an ulp."),
 "C08": ("property-based testing: generated angles over all magnitudes against double-double reduction", "Range and identity are checked for every finite double generated; the value against the exact reduction below 1e15."),
 "C09": ("property-based testing: component-wise double-double reference plus metamorphic relations (swap, scale, negate)", "Restricted to vectors whose squared length neither overflows nor underflows."),
 "C10": ("property-based testing: algebraic laws and a double-double matrix reference over generated matrices, axes and angles", "Error bounds follow the magnitudes of the entries."),
 "C11": ("property-based testing: double-double evaluation of the published formula over generated date splits", "Tolerance follows the rounding of the parts as given."),
 "C12": ("property-based testing: double-double product of the three rotations over generated angles, plus rotation laws", "Angles from 1e-12 to several turns."),
 "C13": ("property-based testing: double-double evaluation of the IERS polynomials over generated times", "Trusts the coefficients in the harness, transcribed from the IERS Conventions."),
 "C14": ("property-based testing: double-double evaluation of an independent copy of the IAU 2000B series", "The copy of the series tables lives in the harness (frozen, reviewed against SOFA nut00b) and is not read from /repo."),
 "C15": ("property-based testing: double-double evaluation of the IAU expressions, rotation laws", "As C14."),
 "C16": ("property-based testing: double-double matrix products over generated dates and caller-supplied nutation, rotation laws", "Private fields are observed through the Debug output only."),
 "C17": ("property-based testing: double-double evaluation of an independent copy of the s series", "As C14."),
 "C18": ("property-based testing: double-double rotation product over generated X, Y, s and dates, rotation laws", "Points next to the rim X^2+Y^2=1 get a tolerance following the conditioning."),
 "C19": ("property-based testing: double-double model chain over generated date pairs and poles; differential check of the assembled parts", "As C14."),
 "C20": ("property-based testing: differential against an independent evaluation of the EPV00 series held in the harness", "The copy of the tables lives in the harness (frozen). Warning flag unspecified at exactly 100 Julian years."),
 "C21": ("property-based testing: metamorphic (numerical derivative, continuity) and almanac relations over generated dates", "Independent of any copy of the tables."),
 "C22": ("property-based testing: double-double geometry over generated ellipsoids and positions, plus the ellipsoid equation", "Heights from deep below the surface to interplanetary distances."),
 "C23": ("property-based testing: round trip through an independent double-double forward conversion", "The error bound follows the flattening (the closed form used is not exact)."),
 "C24": ("property-based testing: generated parameter pairs, valid and invalid, against the stated predicate", "Every class of bad parameter is generated, NaN and infinities included."),
 "C25": ("property-based testing: double-double angle conversion over generated positions, round trips", "By value and by reference."),
 "C26": ("property-based testing: differential against a double-double model chain, and the almanac formula", "Every public field of the result is compared."),
 "C27": ("stateful property-based testing: generated histories of one or two calculators against fresh ones, bit for bit; metamorphic clock and site shifts", "The metamorphic part trusts bounds on the Sun's daily motion."),
 "C28": ("stateful property-based testing: generated sequences of calls over all public functions, repeated, reordered, and run from several threads, compared bit for bit", "Threads run the same calls concurrently; the interleaving is not controlled."),
 "C29": ("property-based testing (robustness fuzzing): structured generation over every public function with extreme values, panics and non-finite results as oracle", "Built with overflow checks and debug assertions."),
 "C30": ("property-based testing: generated command lines run against the real tool binaries, output parsed and compared with the reference models", "The tools are compiled from /repo's examples."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./check.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": T[p["id"]][0] + ("" if p["id"] in ("C28", "C30") else "; thorough adds coverage-guided search (libFuzzer driving the same generators and oracle)"),
   "level": "exploration",
   "level_note": BASE[0].upper() + BASE[1:] + T[p["id"]][1],
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks: everything checked is public API of tofas and tofas_extras. Replay a saved case with ./check.sh replay FILE. See DESIGN.md and known_findings.txt.",
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "..", "MANIFEST.json"), "a").write("\n")
