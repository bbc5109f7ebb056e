#!/usr/bin/env python3
"""Mutation campaign: single-point mutants of a scratch copy of /repo, judged by a scratch copy of the harness.
usage: mutate.py DIR N SEED   (DIR holds repo/ and harness/ copies, the latter pointing at the former)"""
import re, random, subprocess, os, sys, json, time
D, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
random.seed(SEED)
SRC = {"crates/tofas/src/calendar.rs": 1, "crates/tofas/src/delta_at.rs": 1, "crates/tofas/src/time.rs": 1, "crates/tofas/src/common.rs": 1,
       "crates/tofas/src/earth.rs": 1, "crates/tofas/src/ellipsoid.rs": 1, "crates/tofas/src/frames.rs": .6, "crates/tofas/src/locator.rs": .25,
       "crates/tofas/src/fundargs.rs": 1, "crates/tofas_extras/src/sun_angle.rs": 1, "crates/tofas/src/epv00_data.rs": .004,
       "crates/tofas_extras/examples/julian_tool.rs": 1, "crates/tofas_extras/examples/sun_angle_tool.rs": 1}
def num(m):
    s = m.group(0)
    ds = [i for i, c in enumerate(s) if c.isdigit()]
    i = random.choice(ds)
    c = s[i]
    n = random.choice([d for d in "0123456789" if d != c])
    return s[:i] + n + s[i+1:]
OPS = [(r"(?<=[\w\)\]] )\+(?= )", lambda m: "-"), (r"(?<=[\w\)\]] )-(?= )", lambda m: "+"), (r"(?<=[\w\)\]] )\*(?= )", lambda m: "/"), (r"(?<=[\w\)\]])\*(?=[\w\(])", lambda m: "/"),
       (r"(?<=[\w\)\] ])/(?=[\w\( ])", lambda m: "*"), (r"<=", lambda m: "<"), (r">=", lambda m: ">"), (r"(?<= )<(?= )", lambda m: "<="), (r"(?<= )>(?= )", lambda m: ">="),
       (r"(?<= )<(?= )", lambda m: ">"), (r"(?<= )>(?= )", lambda m: "<"),
       (r"&&", lambda m: "||"), (r"\|\|", lambda m: "&&"), (r"\bsin\(", lambda m: "cos("), (r"\bcos\(", lambda m: "sin("), (r"==", lambda m: "!="), (r"!=", lambda m: "=="),
       (r"(?<![\w.])\d+(?:\.\d*)?(?:e-?\d+)?", num), (r"(?<=[\(\[, ])-(?=[\w\(])", lambda m: ""), (r"\+=", lambda m: "-="), (r"-=", lambda m: "+="), (r"\bxp\b", lambda m: "yp"), (r"\babs\(", lambda m: "("),
       (r"trunc\(\)", lambda m: "round()"), (r"round\(", lambda m: "f64::floor("), (r"rem_euclid\(([\d.]+)\)", lambda m: f"rem_euclid({m.group(1)}*2.0)"), (r"%", lambda m: "*")]
cands = []
for f, w in SRC.items():
    L = open(f"{D}/repo/{f}").read().split("\n")
    for i, l in enumerate(L):
        t = l.strip()
        if t.startswith("mod test") or t.startswith("#[cfg(test"): break
        code = l.split("//")[0]
        if not code.strip() or t.startswith(("use ", "#[", "///", "pub fn", "fn ", "impl", "pub struct", "let &", "custom_error")): continue
        for p, r in OPS:
            for m in re.finditer(p, code):
                if random.random() < w * (0.5 if r is num else 1):
                    new = code[:m.start()] + r(m) + code[m.end():]
                    if new != code: cands.append((f, i, l, new + l[len(code):]))
random.shuffle(cands)
print(len(cands), "candidates", flush=True)
env = dict(os.environ, CARGO_TARGET_DIR=f"{D}/target", VERIF_DIR=f"{D}/out", VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.05"), VERIF_SEED="1", VERIF_TIER="quick", TOFAS_REPO=f"{D}/repo")
os.makedirs(f"{D}/out/replays", exist_ok=True); os.makedirs(f"{D}/out/evidence", exist_ok=True)
out = open(f"{D}/mutants-{SEED}.jsonl", "a")
done = 0
for f, i, old, new in cands:
    if done >= N: break
    p = f"{D}/repo/{f}"
    orig = open(p).read()
    L = orig.split("\n"); assert L[i] == old; L[i] = new
    open(p, "w").write("\n".join(L))
    try:
        b = subprocess.run(["cargo", "build", "--release", "--offline", "--bins"], cwd=f"{D}/harness", env=env, capture_output=True, text=True)
        if b.returncode: continue
        done += 1
        hit, odd = [], []
        for k in range(1, 31):
            c = f"C{k:02d}"
            try:
                r = subprocess.run([f"{D}/target/release/tofas-verif", c], env=env, capture_output=True, text=True, timeout=200)
                if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout: hit.append(c)
                elif r.returncode: odd.append((c, r.returncode, r.stderr[-300:]))
            except subprocess.TimeoutExpired: odd.append((c, "timeout", ""))
        rec = dict(file=f, line=i+1, old=old.strip(), new=new.strip(), hit=hit, odd=odd)
        out.write(json.dumps(rec) + "\n"); out.flush()
        print("ok  " if hit else "MISS", f, i+1, "|", old.strip(), "=>", new.strip(), "|", " ".join(hit), odd if odd else "", flush=True)
    finally:
        open(p, "w").write(orig)
