#!/bin/bash
# Builds the simulator from /repo's working tree: build.sh REPO OUTDIR
# OUTDIR/sim is the resulting binary.
set -e
REPO=${1:-/repo}
OUT=${2:-/verif/build}
VERIF=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 GOSUMDB=off
mkdir -p "$OUT"
(cd "$VERIF/tools/instrument" && go build -o "$OUT/instrument" .)
case "$OUT" in /verif/build*|/tmp/?*) ;; *) echo "refusing to build in $OUT" >&2; exit 3;; esac
rm -rf "$OUT/src" "$OUT/mod"
mkdir -p "$OUT/src" "$OUT/mod"
"$OUT/instrument" -repo "$REPO" -out "$OUT/src"
cp -r "$VERIF/sim/." "$OUT/mod/"
MAIN=$(cat "$OUT/src/main.txt")
MODPATH=$(sed -n 's/^module[ \t]*//p' "$REPO/go.mod")
cat > "$OUT/mod/harness/zz_main.go" <<EOT
package harness

import rodbmain "$MAIN"

func init() { rodbMain = rodbmain.Main }
EOT
{
  cat "$VERIF/sim/go.mod"
  # the versions the system under test is built with
  (cd "$REPO" && go list -deps -tags sqlite_fts5 -f '{{with .Module}}{{if .Version}}require {{.Path}} {{.Version}}{{end}}{{end}}' ./... | sort -u)
  echo "require $MODPATH v0.0.0"
  echo "replace $MODPATH => ../src/rodb"
  for m in xpath:github.com/antchfx/xpath xmlquery:github.com/antchfx/xmlquery logrus:github.com/sirupsen/logrus xtext:golang.org/x/text; do
    echo "replace ${m#*:} => ../src/${m%%:*}"
  done
} > "$OUT/mod/go.mod"
cp "$REPO/go.sum" "$OUT/mod/go.sum"
cp "$OUT/src/sites.txt" "$OUT/sites.txt"
cd "$OUT/mod"
for d in ../src/*/; do cp -n "$REPO/go.sum" "$d/go.sum" 2>/dev/null || true; done
GOFLAGS=-mod=mod go test -c -tags sqlite_fts5 -o "$OUT/sim.new" ./harness
mv "$OUT/sim.new" "$OUT/sim"
