#!/bin/bash
# mut.sh PROP FILE SED-EXPR...: run govc for PROP on a scratch copy of /repo with each sed expression applied to FILE in turn.
prop=$1; file=$2; shift 2
d=$(mktemp -d /tmp/mut.XXXX); cp -a /repo "$d/repo"
. /opt/vp/env.sh
[ -x /tmp/govc ] || (cd /verif/govc && PATH=/usr/local/bin:$PATH GOFLAGS=-mod=readonly go build -o /tmp/govc .)
for e in "$@"; do
  cp /repo/$file "$d/repo/$file"; sed -i -E "$e" "$d/repo/$file"
  if cmp -s /repo/$file "$d/repo/$file"; then echo "NOCHANGE $e"; continue; fi
  (cd "$d/repo" && go build ./$(dirname $file) >/dev/null 2>"$d/err") || { echo "NOBUILD $e"; head -3 "$d/err"; continue; }
  /tmp/govc -prop $prop -repo "$d/repo" -ms ${MS:-5000} ${GOVCFLAGS} > "$d/out" 2>&1 && echo "MISSED  $e" || { echo "caught  $e"; grep -m2 ^failed "$d/out" | cut -c1-200; [ -n "$V" ] && cat "$d/out"; }
done
rm -rf "$d"
