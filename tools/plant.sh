#!/bin/bash
# plant.sh make <id> : takes the change in the scratch copy /tmp/bugrepo, confirms build, tests and demo, stores patch.diff
# plant.sh check <id> [prop...] : applies seeded/<id>/patch.diff to /repo, runs the check(s), undoes it
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/bugrepo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
id=$2
case $1 in
fresh) rm -rf /tmp/bugrepo; cp -a /repo /tmp/bugrepo; (cd $S && cargo build --offline 2>&1 | tail -1);;
make)
  cd $S || exit 2
  git diff > $V/seeded/$id/patch.diff; [ -s $V/seeded/$id/patch.diff ] || { echo "no change"; exit 2; }
  cargo build --offline >/tmp/plant.log 2>&1 || { grep -A8 ^error /tmp/plant.log|head -30; exit 2; }
  timeout 300 cargo test --offline --no-fail-fast >/tmp/plant.test 2>&1
  echo "tests: $(grep -c '^test .* ok$' /tmp/plant.test) ok, $(grep '^test .*FAILED' /tmp/plant.test | tr '\n' ' ')"
  timeout 300 bash $V/seeded/$id/demo.sh >/tmp/plant.demo1 2>&1; a=$?
  git checkout -q -- .; cargo build --offline >/tmp/plant.log 2>&1
  timeout 300 bash $V/seeded/$id/demo.sh >/tmp/plant.demo0 2>&1; b=$?
  echo "demo: patched=$a clean=$b"; [ $a != 0 ] && [ $b = 0 ] && echo CONFIRMED || { echo NOT CONFIRMED; tail -n 5 /tmp/plant.demo1 /tmp/plant.demo0; };;
check)
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])"); shift 2; [ $# -gt 0 ] && p="$*"
  git -C /repo diff --quiet || { echo dirty; exit 2; }
  git -C /repo apply $V/seeded/$id/patch.diff || exit 2
  for q in $p; do echo "$id $q: $(cd $V && bash tools/check.sh $q quick 2>&1 | grep -E 'VIOLATION|runs=' | cut -c1-160 | tr '\n' ' ')"; done
  git -C /repo checkout -q -- .;;
esac
