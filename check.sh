#!/bin/bash
# check.sh <property>: rebuild from /repo's current tree, then search for a run that breaks the property.
# Exit 0: none found. Exit 1 and a VIOLATION line: one was found. Anything else: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
log="$here/target/build-$id.log"
mkdir -p "$here/target" "$here/evidence"
(
  flock 9
  "$here/build.sh" >"$log" 2>&1
) 9>"$here/target/lock"
if [ $? -ne 0 ]; then
  tail -40 "$log" >&2
  echo "the simulator does not build" >&2
  exit 2
fi
# genuine defects that are recorded and not repaired (none at present; see known_findings.txt)
grep "^finding: property=$id " "$here/known_findings.txt" 2>/dev/null | sed 's/^finding: /KNOWN-FINDING: /'
export DST_DIR="$here"
exec "$here/target/debug/dst" check "$id"
