#!/bin/bash
# tools/seedtest.sh ID... : does each planted bug build, pass the tests, fail its demo; and does its property's check catch it? (scratch copies only)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seedtest/repo
  rm -rf /tmp/seedtest/repo; mkdir -p $w; git -C /repo archive HEAD | tar x -C $w; cp /repo/Cargo.lock $w/ 2>/dev/null
  cp -a /repo/target $w/target
  (cd $w && git init -q . )
  if [ -z "$NODEMO" ]; then
    (cd $w && bash $d/demo.sh >/tmp/seedtest/demo0.log 2>&1); a=$?
  fi
  (cd $w && git apply $d/patch.diff) || { echo "$id does not apply"; continue; }
  if [ -z "$NODEMO" ]; then
    (cd $w && cargo test --workspace --offline > /tmp/seedtest/test.log 2>&1)
    p=$(grep -E "^test .* \.\.\. ok" /tmp/seedtest/test.log | wc -l); fl=$(grep -E "^test .*FAILED" /tmp/seedtest/test.log | wc -l)
    (cd $w && bash $d/demo.sh >/tmp/seedtest/demo1.log 2>&1); b=$?
    echo "$id: demo clean $a, patched $b ($(grep -m1 -E 'error|panicked|assert' /tmp/seedtest/demo1.log)), tests ok $p failed $fl"
  fi
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$NOCHECK" ] && /verif/tools/try.sh $d/patch.diff $prop ${EXTRA}
done
