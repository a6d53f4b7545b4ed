#!/bin/bash
# ns.sh NAME CMD...: run CMD with a private copy of /repo (/tmp/ns-NAME) in its place, in a mount namespace of its own
N=/tmp/ns-$1; shift
rsync -a --delete /repo/ $N/ 2>/dev/null || { mkdir -p $N; rsync -a --delete /repo/ $N/; }
exec unshare -Urm bash -c 'mount --bind '$N' /repo && cd /verif && git config --global --get-all safe.directory >/dev/null; exec "$@"' _ "$@"
