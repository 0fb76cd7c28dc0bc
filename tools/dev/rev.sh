#!/bin/sh
# rev.sh PROP[,PROP] COMMIT...: checks against a copy of /repo with those commits undone
props=$1; shift
d=$(mktemp -d /tmp/rev-XXXXXX); cp -a /repo/. $d
cd $d
for c in "$@"; do git -c user.name=x -c user.email=x@x revert --no-edit $c >/dev/null 2>&1 || { echo "revert of $c conflicts"; rm -rf $d; exit 3; }; done
for p in $(echo $props | tr , ' '); do VERIF_REPO=$d timeout 600 /verif/bin/check $p 2>&1 | head -2 | cut -c1-330; done
rm -rf $d
