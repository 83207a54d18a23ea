#!/bin/sh
# mut.sh FILE 's/old/new/' run1-args...: the proofs against /repo with one sed edit (in a private mount)
set -e
F=$1; E=$2; shift 2
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. $D/
sed -i "$E" $D/$F
diff $D/$F /repo/$F > $D/.mutdiff && echo 'NO CHANGE'
cat $D/.mutdiff
unshare -m sh -c "mount --bind $D /repo && cd /verif && python3-vt pyvc/run1.py $*" || true
rm -rf "$D"
