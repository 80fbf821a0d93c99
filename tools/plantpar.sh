#!/bin/bash
# plantpar.sh NWORKERS SPECFILE [ids...]: plant bugs in parallel, each worker in a mount
# namespace of its own in which /repo and /verif are copies. Results: stdout; seeded/ is copied back.
N=$1; SPEC=$2; shift 2
IDS=("$@"); [ ${#IDS[@]} = 0 ] && IDS=($(python3 -c "print(*eval(open('$SPEC').read()))"))
W=$(mktemp -d /tmp/pw-XXXX); mkdir -p $W/q
for k in $(seq 1 $N); do
  cp -a /repo $W/repo$k
  rsync -a --exclude build/replay --exclude build/evidence /verif/ $W/verif$k/ 2>/dev/null || cp -a /verif $W/verif$k
  mkdir -p $W/vp$k
  mine=(); for i in "${!IDS[@]}"; do [ $((i % N)) = $((k-1)) ] && mine+=("${IDS[$i]}"); done
  [ ${#mine[@]} = 0 ] && continue
  ( unshare -m bash -c "mount --make-rprivate / ; mount --bind $W/repo$k /repo && mount --bind $W/verif$k /verif && cd /verif && git -C /repo checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1; for b in ${mine[*]}; do python3 tools/plant.py $SPEC \$b 2>&1; done"
  ) &
done
wait
for k in $(seq 1 $N); do [ -d $W/verif$k/seeded ] && cp -a $W/verif$k/seeded/. /verif/seeded/; done
rm -rf "$W"
