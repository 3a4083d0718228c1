#!/bin/bash
# replay.sh FILE.plan [-v]: replay a violation exactly, against /repo's current tree.
F=$(realpath "$1"); shift
ID=$(sed -n 's/^property //p' "$F" | head -1)
export VDIR=${VDIR:-/verif/.build}
case $ID in
    C05) B=inst; V="inst emu-x86_64" ;;
    C10) B=inst; V="inst asan emu-x86_64" ;;
    C06|C07|C08|C09) B=inst; V="inst" ;;
    C11) B=rel; V="rel dbg nostd inst emu-s390x emu-i686" ;;
    C13) B=rel; V="rel dbg nostd inst" ;;
    *) B=rel; V=rel ;;
esac
/verif/build.sh $V || exit 2
export DST_BIN_DIR=$VDIR/bin
exec "$VDIR/bin/dst-$B" replay "$F" "$@"
