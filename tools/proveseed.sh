#!/bin/bash
# proveseed.sh SEED ARGS...: the proofs (pyvc/run1.py ARGS) against /repo with a planted bug, in a bind-mounted copy
seed=$1; shift
w=$(mktemp -d /tmp/ps.XXXXXX)
cp -a /repo $w/repo
if [ -f "$seed" ]; then p=$seed; else p=/verif/seeded/$seed/patch.diff; fi
git -C $w/repo apply $p || exit 3
unshare -Urm bash -c "mount --bind $w/repo /repo && cd /verif && python3-vt pyvc/run1.py $*"
rm -rf "$w"
