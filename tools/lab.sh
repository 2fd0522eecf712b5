#!/bin/bash
# lab.sh DIR PATCH|- IDS...   run checks against a scratch copy of /repo with PATCH applied.
# Creates DIR (under /tmp) on first use and reuses it; prints one line per check.  Development aid only.
# env: NOREG=1 (without the committed cases), PRE (shell command run in the copy), TIER, SRC (default /verif), STOP=1 (stop at the first failing check)
set -u
D=$1; P=$2; shift 2
S=${SRC:-/verif}
case $D in /tmp/*) ;; *) echo "DIR must be under /tmp"; exit 2;; esac
mkdir -p "$D/v"
if [ ! -d "$D/repo" ]; then git clone -q /repo "$D/repo"; cp /repo/Cargo.lock "$D/repo/" 2>/dev/null; fi
(cd "$D/repo" && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd -e target -e Cargo.lock)
rsync -a --delete --exclude target "$S/harness" "$D/v/"
[ -d "$D/v/harness/target" ] || cp -a "$S/harness/target" "$D/v/harness/target"
cp /verif/known_findings.txt "$S/check.sh" "$D/v/"
[ -d /verif/regress ] && { [ -n "${NOREG:-}" ] && rm -rf "$D/v/regress" || cp -a /verif/regress "$D/v/"; }
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" "$D/v/harness/Cargo.toml" "$D/v/harness/mem/Cargo.toml"
if [ "$P" != - ]; then (cd "$D/repo" && git apply "$P") || { echo "APPLY FAILED"; exit 3; }; fi
[ -n "${PRE:-}" ] && (cd "$D/repo" && eval "$PRE")
touch "$D"/repo/src/*.rs
for i in "$@"; do
    s=$(date +%s)
    out=$(CMH_REPO=$D/repo "$D/v/check.sh" "$i" "${TIER:-quick}" 2>&1); rc=$?
    echo "$i rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION | sed 's/replay=.*//') $( [ $rc -gt 1 ] && echo "$out" | tail -3)"
    [ -n "${STOP:-}" ] && [ $rc -ne 0 ] && break
done
