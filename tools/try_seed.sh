#!/bin/bash
# try_seed.sh WORK ID...   for each seeded/ID, in the scratch folder WORK (holds repo/ and harness/ copies):
# patch applies, builds, 18 tests pass, demo 0 without / nonzero with the patch, and which checks see it.
set -u
W="$1"; shift
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$W/out/replays" "$W/out/evidence"
for id in "$@"; do
  S="$V/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C "$W/repo" checkout -q -- .
  (cd "$W/repo" && bash "$S/demo.sh" >"$W/demo0" 2>&1); d0=$?
  if ! git -C "$W/repo" apply "$S/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  (cd "$W/repo" && CARGO_TARGET_DIR="$W/ttarget" cargo test --workspace --no-fail-fast --offline >"$W/test" 2>&1); t=$?
  n=$(grep -c "^test .* ok$" "$W/test")
  (cd "$W/repo" && bash "$S/demo.sh" >"$W/demo1" 2>&1); d1=$?
  (cd "$W/harness" && CARGO_TARGET_DIR="$W/target" cargo build --release --offline --bins >"$W/build" 2>&1) || { echo "$id: harness does not build"; tail -30 "$W/build"; }
  hit=""; odd=""
  for k in $prop ${CHECKS-$(seq -f 'C%02g' 1 30)}; do
    VERIF_DIR="$W/out" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick TOFAS_REPO="$W/repo" VERIF_SCALE="${VERIF_SCALE:-1}" timeout 900 "$W/target/release/tofas-verif" "$k" >"$W/o.$k" 2>&1; r=$?
    if [ $r = 1 ] && grep -q "^VIOLATION property=$k" "$W/o.$k"; then case " $hit " in *" $k "*) ;; *) hit="$hit $k";; esac; elif [ $r != 0 ]; then odd="$odd $k:$r"; fi
  done
  git -C "$W/repo" checkout -q -- .
  ok=OK; [ $d0 = 0 ] && [ $d1 != 0 ] && [ $d1 != 3 ] && [ $t = 0 ] && [ "$n" = 18 ] || ok="BAD(demo0=$d0 demo1=$d1 tests=$t/$n)"
  case " $hit " in *" $prop "*) c=CAUGHT;; *) c=MISSED;; esac
  echo "$id $prop $ok $c by:$hit ${odd:+odd:$odd}"
done
