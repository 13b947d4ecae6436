#!/bin/bash
# check.sh <property> [quick|thorough]   builds the group of the property from /repo and decides it.
# Exit 0 held, 1 VIOLATION, anything else: no answer.
HERE=$(cd "$(dirname "$0")" && pwd); cd "$HERE" || exit 3
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
case $ID in
C01|C02|C03|C04|C05) G=p_cell ;;
C06|C21|C23) G=p_mat ;;
C07|C08|C09|C10|C11) G=p_proto ;;
C12|C13|C14|C15) G=p_files ;;
C16|C17|C18) G=p_ell ;;
C19) G=p_mem_asan ;;
C20) G=p_mem ;;
C22) G=p_newton ;;
*) echo "unknown property $ID" >&2; exit 3 ;;
esac
export BUILD_DIR=${BUILD_DIR:-$HERE/build}
mkdir -p "$HERE/evidence/replay"
./build.sh $G || { echo "the library or the harness does not compile" >&2; exit 3; }
exec "$BUILD_DIR/$G" $ID --tier "$TIER" --seed "$SEED" --evidence "$HERE/evidence/$ID.json" --replay-dir "$HERE/evidence/replay" --known "$HERE/known-findings.txt"
