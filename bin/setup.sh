#!/bin/bash
# Warm the build cache (optional: every check builds what it needs by itself).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$VERIF/.build" "$VERIF/evidence"
B="$(mktemp -d "$VERIF/.build/setup.XXXXXX")" || exit 1
trap 'rm -rf "$B"' EXIT
gen_overlay "$B" || exit 1
cd "$VERIF/harness" || exit 1
for d in cmd/*/; do
  n="$(basename "$d")"
  if [ -f "$d/RACE" ]; then
    CGO_ENABLED=1 go build -mod=readonly -tags verif -race -overlay "$B/overlay.json" -o "$B/$n" "./cmd/$n" || exit 1
  else
    go build -mod=readonly -tags verif -overlay "$B/overlay.json" -o "$B/$n" "./cmd/$n" || exit 1
  fi
  rm -f "$B/$n"
done
