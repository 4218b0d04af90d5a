#!/bin/bash
# try_ns.sh ID...: try_bug.sh for each planted bug, in a private mount namespace over copies of /repo and /verif
# (nothing outside /tmp/ns.* is touched, several can run side by side); development aid. J=n jobs at a time
one() {
  ID=$1; N=/tmp/ns.$ID; mkdir -p $N
  cp -a /repo $N/repo; cp -a /verif $N/verif
  unshare -Urm bash -c "mount --bind $N/repo /repo && mount --bind $N/verif /verif && cd /verif && NSTMP=$N bash tools/try_bug.sh $ID $PROPS" > /tmp/try.$ID.log 2>&1
  cat /tmp/try.$ID.log; rm -rf "/tmp/ns.$ID"
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-2} -I{} bash -c 'one {}'
