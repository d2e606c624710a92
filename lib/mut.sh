#!/bin/bash
# mut.sh <id...> -- <command>: run checks against a scratch copy of /repo changed by the command (run in the copy)
d=$(mktemp -d /tmp/mutXXXXXX); cp -a "${SRC:-/repo}" "$d/repo"
ids=(); while [ "$1" != "--" ]; do ids+=("$1"); shift; done; shift
( cd "$d/repo" && bash -c "$*" && git diff --stat | tail -1 ) || { echo "mutation failed"; }
if [ -z "$(git -C "$d/repo" diff --name-only)" ]; then echo "NO CHANGE"; fi
for i in "${ids[@]}"; do ( VERIF_REPO="$d/repo" timeout 900 /verif/run.sh "$i" ${TIER:-quick} 2>/dev/null | cut -c1-260 | head -${LINES_MAX:-3} ); done
find "$d" -mindepth 1 -delete; rmdir "$d"
