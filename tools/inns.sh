#!/bin/bash
# usage: inns.sh EDIT CMD...   runs CMD with a copy of /repo, edited by EDIT (a patch, or a python script run in
# its root), bound over /repo, and a copy of /verif over /verif, in a private mount namespace; nothing outside changes
edit=$(realpath "$1"); shift
d=$(mktemp -d /tmp/inns.XXXXXX)
cp -a /repo $d/repo; mkdir $d/verif; cd /verif && tar c --exclude=.git --exclude=seeded . | tar x -C $d/verif
cd $d/repo
case "$edit" in
*.py) /opt/venv/bin/python "$edit" || exit 3;;
*) git apply "$edit" || exit 3;;
esac
unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && $*"
rc=$?
rm -rf "$d"
exit $rc
