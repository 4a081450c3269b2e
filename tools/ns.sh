#!/bin/bash
# ns.sh TREE CMD...   runs CMD with TREE in place of /repo, a private /tmp, network and process space
tree=$1; shift
exec unshare -mnpf --kill-child --mount-proc bash -c '
mount --make-rprivate /
mount --bind "$0" /repo
d=$(mktemp -d /var/tmp/ns.XXXXXX); mount --bind "$d" /tmp
ip link set lo up
cd "${NSCWD:-/repo}"
"$@"; rc=$?
umount -l /tmp; rm -rf "$d"
exit $rc' "$tree" "$@"
