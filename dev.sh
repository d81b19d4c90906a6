# go2.sh [module|fn...]  : lift with everything, run verus
cd ${VT:-/tmp/vt}
P=""; for f in /verif/contracts/prelude.rs /verif/contracts/t*.rs; do P="$P --prelude $f"; done
C=""; for f in /verif/contracts/*.vc; do [ -f $f ] && C="$C --contract $f"; done
${LIFT:-/tmp/lt/debug/lift} --baseline /verif/contracts/baseline.txt --src ${SRC:-/repo/src} --out ${VT:-/tmp/vt}/all.rs $P $C | grep -vE "^(FN|UNCON|INL)"
verus all.rs --num-threads 8 "$@" 2>&1 | grep -vE "^warning|^ *$" > ${VT:-/tmp/vt}/out.txt
grep -E "^error|verification results" -A14 ${VT:-/tmp/vt}/out.txt | head -${N:-120}
