#!/bin/bash
# lab.sh NAME CMD...: runs CMD with private copies of /repo, /verif and /opt/vp
# (kept in /tmp/lab/NAME) mounted over the real ones.
n=$1; shift
L=/tmp/lab/$n
if [ ! -d "$L" ]; then
  mkdir -p "$L"
  cp -a /repo "$L/repo"; cp -a /verif "$L/verif"; cp -a /opt/vp "$L/vp"
fi
exec unshare -Urm bash -c 'L=$1; shift; mount --bind $L/repo /repo && mount --bind $L/verif /verif && mount --bind $L/vp /opt/vp && cd /verif && exec "$@"' _ "$L" "$@"
