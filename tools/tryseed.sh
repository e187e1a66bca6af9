#!/bin/bash
# tryseed.sh ID...: confirm planted changes in scratch copies of /repo and run
# the check of their property against them (not read by any check).
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id
  W=$(mktemp -d /tmp/tryseed.XXXXXX)
  cp -a /repo "$W/clean"; cp -a /repo "$W/bad"
  mkdir "$W/d"; cp -a "$S/." "$W/d/"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
  r="$id:"
  if ! git -C "$W/bad" apply "$S/patch.diff"; then echo "$r patch does not apply"; rm -rf "$W"; continue; fi
  (cd "$W/bad" && go build ./... && go vet . >/dev/null 2>&1; go build ./...) || r="$r NOBUILD"
  n=$(cd "$W/bad" && go test -vet=off -count=1 -v ./... 2>&1 | grep -c -- '--- FAIL')
  [ "$n" = 0 ] || r="$r TESTSFAIL"
  (cd "$W/clean" && timeout 300 bash "$W/d/demo.sh" >"$W/c.log" 2>&1) || { r="$r DEMOFAILSCLEAN"; tail -5 "$W/c.log"; }
  if (cd "$W/bad" && timeout 300 bash "$W/d/demo.sh" >"$W/b.log" 2>&1); then r="$r DEMOPASSESBAD"; fi
  [ -n "$DEMO_V" ] && tail -3 "$W/b.log"
  P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then
    for p in ${PROPS:-$P}; do
      t0=$(date +%s)
      out=$(cd "$V" && XGEN_REPO=$W/bad timeout 900 ./check.sh ${N:+-n $N} $p 2>&1); rc=$?
      r="$r [$p rc=$rc $(( $(date +%s) - t0 ))s] $(echo "$out" | grep -m1 '^violation\|^simcheck' | cut -c1-220)"
    done
  fi
  echo "$r"
  rm -rf "$W"
done
