#!/bin/bash
# tools/try.sh PATCH[-R] ID... : run checks against a scratch copy of /repo with PATCH applied ("-R FILE" to reverse it).
# Works in $T (one at a time); never touches /repo.
T="${TRY:-/tmp/try}"
set -e
rev=""; [ "$1" = "-R" ] && { rev="-R"; shift; }
patch="$(readlink -f "$1")"; shift
mkdir -p $T/verif
rm -rf $T/repo; mkdir -p $T/repo
git -C /repo archive HEAD | tar -x -C $T/repo
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock $T/repo/
(cd $T/repo && git init -q . && git apply $rev "$patch")
rsync -a --delete --exclude target --exclude seeded --exclude .git --exclude evidence /verif/ $T/verif/
[ -d $T/verif/target ] || cp -a /verif/target $T/verif/target
sed -i "s#path = \"/repo\"#path = \"$T/repo\"#" $T/verif/sim/Cargo.toml
sed -i "s#/repo/#$T/repo/#g" $T/verif/build.sh
sed -i "s#/repo/src#$T/repo/src#g" $T/verif/sim/src/*.rs
for id in "$@"; do
  set +e
  o="$($T/verif/check.sh $id 2>&1)"; rc=$?
  set -e
  echo "$id rc=$rc $(echo "$o" | grep -E 'runs of|minimised|^seed [0-9]*:|replayed|HARNESS|error' | cut -c1-${W:-220} | tr '\n' '|')"
done
