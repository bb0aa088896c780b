#!/bin/bash
# usage: tools/seedtest.sh SEED_ID [notest] -- try a planted bug in a scratch copy of /repo (/tmp/wt) and a scratch copy of the harness (/tmp/hx)
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); s=$here/seeded/$id
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
cd /tmp/wt && git checkout -q -- . && git fetch -q ${REPO:-/repo} HEAD && git reset -q --hard FETCH_HEAD || exit 2
if [ "$2" != notest ]; then bash "$s/demo.sh" >/tmp/seed-demo0.log 2>&1; echo "demo clean: $?"; fi
git apply "$s/patch.diff" || { echo "patch does not apply"; exit 2; }
if [ "$2" != notest ]; then
  bash "$s/demo.sh" >/tmp/seed-demo1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/seed-demo1.log
  cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 -E 'not binary(/^perf_/)' >/tmp/seed-test.log 2>&1; grep -E "^ +(FAIL|TRY|SIGABRT|TIMEOUT)|Summary|^error" /tmp/seed-test.log | sort -u | head -8
fi
mkdir -p /tmp/hx; cp -r $here/harness $here/known_findings.json /tmp/hx/; sed -i 's|"[^"]*/repo/crates|"/tmp/wt/crates|' /tmp/hx/harness/Cargo.toml
cd /tmp/hx/harness && CARGO_TARGET_DIR=/tmp/hx/target cargo build --offline 2>&1 | grep -E "^error" -A5
for p in $(python3 -c "import json;m=json.load(open('$s/meta.json'));print(m['property'],*m.get('also',[]))"); do
  VERIF_DIR=/tmp/hx /tmp/hx/target/debug/vharness check $p >/tmp/seed-check.log 2>&1; echo "check $p: $?"; grep -E "VIOLATION" -B2 /tmp/seed-check.log | cut -c1-400; tail -1 /tmp/seed-check.log
done
cd /tmp/wt && git checkout -q -- .
