#!/bin/bash
# determinism.sh [GROUPS] [SEED] : the digests of the first GROUPS groups of every property must be the same
# when run again, with another number of workers and with another hash seed.   (development tool)
here="$(cd "$(dirname "$0")/.." && pwd)"
n="${1:-24}"; export VERIF_SEED="${2:-1}"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17; do
  bash "$here/check.sh" --digests $p $n >"$out/a" 2>&1
  bash "$here/check.sh" --digests $p $n >"$out/b" 2>&1
  VERIF_WORKERS=3 bash "$here/check.sh" --digests $p $n >"$out/c" 2>&1
  VERIF_HASHSEED=77 bash "$here/check.sh" --digests $p $n >"$out/d" 2>&1
  r=same
  for x in b c d; do cmp -s "$out/a" "$out/$x" || { r="DIFFERENT ($x)"; bad=1; diff "$out/a" "$out/$x" | head -3; }; done
  echo "$p $(wc -l <"$out/a") lines: $r"
done
exit $bad
