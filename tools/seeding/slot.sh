#!/bin/bash
# slot.sh N cmd...: runs cmd with /repo and /verif replaced by scratch copies /tmp/slotN/{repo,verif}
n=$1; shift; s=/tmp/slot$n
if [ ! -d $s/repo ]; then mkdir -p $s; cp -a /repo $s/repo; fi
mkdir -p $s/verif
rsync -a --delete --exclude .target --exclude evidence --exclude replays --exclude .work /verif/ $s/verif/ 2>/dev/null || { (cd /verif && tar cf - --exclude=.target --exclude=./evidence --exclude=./replays --exclude=./.work --exclude=.git .) | tar xf - -C $s/verif; }
mkdir -p $s/verif/evidence $s/verif/replays $s/verif/.work
exec unshare -Urm bash -c 'mount --bind '$s'/repo /repo && mount --bind '$s'/verif /verif && exec "$@"' _ "$@"
