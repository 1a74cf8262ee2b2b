#!/bin/bash
# tools/seedcheck.sh ID... [notest]: runs seedcheck_inner.sh against a copy of /repo mounted over it in a namespace of its own
# (development aid; no registered check uses it)
[ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
[ -d /tmp/seedopt ] || cp -a /opt/vp /tmp/seedopt
[ -d /tmp/seedbuild ] || cp -a /verif/.build /tmp/seedbuild
mkdir -p /tmp/seedev
git -C /tmp/seedrepo fetch -q /repo HEAD && git -C /tmp/seedrepo checkout -q -f FETCH_HEAD
NT=; for a in "$@"; do [ "$a" = notest ] && NT=notest; done
exec unshare -m bash -c 'mount --bind /tmp/seedrepo /repo; mount --bind /tmp/seedopt /opt/vp; mount --bind /tmp/seedbuild /verif/.build; mount --bind /tmp/seedev /verif/evidence
for a in "${@:2}"; do [ "$a" = notest ] || bash /verif/tools/seedcheck_inner.sh $a $1; done' _ "$NT" "$@"
