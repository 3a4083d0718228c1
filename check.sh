#!/bin/bash
# check.sh ID [QUICK|THOROUGH options...]: decide one property on /repo's current tree.
ID=$1; shift
cd /verif
T0=$(date +%s.%N)
TIER=${VERIF_TIER:-quick} SEED=${VERIF_SEED:-1}
export VDIR=${VDIR:-/verif/.build}
case $ID in
    C01|C02|C03|C04|C12) B=rel; V="rel" ;;
    C05) B=inst; V="inst emu-x86_64" ;;
    C10) B=inst; V="inst asan emu-x86_64" ;;
    C14) B=inst; V="inst dbg" ;;
    C06|C07|C08|C09) B=inst; V="inst" ;;
    C11) B=rel; V="rel dbg nostd inst emu-s390x emu-i686" ;;
    C13) B=rel; V="rel dbg nostd inst" ;;
    *) echo "unknown property $ID" >&2; exit 2 ;;
esac
/verif/build.sh $V || exit 2
S=$(mktemp -d "$VDIR/scratch-$ID-XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
export DST_BIN_DIR=$VDIR/bin TMPDIR=$S
SETUP=$(python3 -c "import sys,time;print(time.time()-float(sys.argv[1]))" "$T0")
WALL=300; [ "$TIER" = thorough ] && WALL=3000
"$VDIR/bin/dst-$B" check --prop "$ID" --tier "$TIER" --seed "$SEED" --out "/verif/evidence/$ID.json" \
    --scratch "$S" --setup-s "$SETUP" --wall "$WALL" "$@" 2>"$S/err"
rc=$?
grep -v '^panic at ' "$S/err" | head -50 >&2
exit $rc
