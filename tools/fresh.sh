#!/bin/bash
# tools/fresh.sh ID FROM TO [DST]: do runs made one after another in one process agree with runs made each in a process of its own?
dst="${4:-/verif/target/debug/dst}"
diff <("$dst" digests $1 $2 $3 2>/dev/null) <(for ((i=$2;i<$3;i++)); do "$dst" digests $1 $i $((i+1)) 2>/dev/null; done) && echo "$1 $2..$3: the same"
