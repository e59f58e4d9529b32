#!/bin/bash
# usage: tools/seedtest.sh SEED...   confirm planted changes in a scratch copy: build, stable tests, demo with and without, the property's check
# (scratch copy /tmp/sw; NOTEST=1 skips the stable tests, NOCHECK=1 the check)
V=$(cd "$(dirname "$0")/.." && pwd)
[ -d /tmp/sw ] || cp -a /repo /tmp/sw
. /opt/vp/env.sh
build() { (cd /tmp/sw && cargo test --workspace --lib --bins --tests --no-run --offline --locked >/tmp/sw.build 2>&1) || { echo "BUILD FAILED"; tail -30 /tmp/sw.build; return 1; }; }
sync() { rsync -ac --delete --exclude target --exclude .git "${VP_SRC:-/repo}"/ /tmp/sw/; (cd /tmp/sw && find . -path ./target -prune -o -path ./.git -prune -o -name '*.rs' -newer /tmp/sw.stamp -print >/dev/null 2>&1); }
demo() { mkdir -p /tmp/sd; rsync -a --delete --exclude '*.diff' --exclude '*.patch' --exclude meta.json "$V/seeded/$1/" /tmp/sd/; (cd /tmp/sw && timeout 300 bash /tmp/sd/demo.sh >/tmp/sw.demo.$2 2>&1); echo $?; }
for s in "$@"; do
  d="$V/seeded/$s"; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  sync; touch /tmp/sw/dsh*/src/lib.rs; build || continue
  c=$(demo $s clean)
  (cd /tmp/sw && patch -p1 -s --no-backup-if-mismatch < "$d/patch.diff") || { echo "$s: PATCH FAILED"; continue; }
  touch $(cd /tmp/sw && grep '^+++ b/' "$d/patch.diff" | sed 's,^+++ b/,/tmp/sw/,;s,\t.*,,')
  build || { echo "$s"; continue; }
  t=skipped
  if [ -z "$NOTEST" ]; then
    rm -rf /tmp/sww; mkdir -p /tmp/sww/home /tmp/sww/tmp
    (cd /tmp/sw && CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup HOME=/tmp/sww/home TMPDIR=/tmp/sww/tmp cargo nextest run --workspace --lib --bins --tests --offline --locked -E "not binary(=redirection)" --tool-config-file vp:/opt/vp/nextest.toml --profile vp --no-fail-fast --test-threads 8 </dev/null >/tmp/sw.test 2>&1)
    python3 /opt/vp/results.py /tmp/sw.json junit:/tmp/sw/target/nextest/vp/junit.xml >/dev/null 2>&1
    t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sw.json'))
base=set(b['stable']); ok=set(r['passed'])
m=sorted(base-ok)
print("tests ok" if not m else "TESTS MISSING %d %s" % (len(m), m[:3]))
PY
)
  fi
  m=$(demo $s mutant)
  k=skipped
  if [ -z "$NOCHECK" ]; then k=$("$V/tools/mut.sh" "$d/patch.diff" $p 2>&1 | tail -1); fi
  echo "$s: demo clean=$c mutant=$m | $t | $k"
  rm -rf /tmp/sww /tmp/sd
done
