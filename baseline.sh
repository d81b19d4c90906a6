#!/bin/sh
# Records the local names of the functions under contract as they are on the pinned tree, so that a
# renamed local can be mapped back.  Run by hand after a contract is added; never by a check.
P=""; for f in /verif/contracts/prelude.rs /verif/contracts/t*.rs; do P="$P --prelude $f"; done
C=""; for f in /verif/contracts/*.vc; do C="$C --contract $f"; done
${LIFT:-/verif/build/lift/debug/lift} --src /repo/src --out /dev/null $P $C --write-baseline /verif/contracts/baseline.txt >/dev/null
