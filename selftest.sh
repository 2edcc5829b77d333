#!/bin/bash
# selftest.sh [COUNT]: is the machinery deterministic, and does it see what it
# should? Not a check; run by hand.
#  1. The first COUNT seeds of every scenario are run in processes with
#     different environments and at different times: the hashes of their event
#     logs have to be the same.
#  2. If /repo has its history, the tree before the fix: commits is checked:
#     the checks named there have to report a violation, and the replay file
#     has to report it again.
cd "$(dirname "$0")" || exit 3
. ./env.sh
n=${1:-40}
drv=$(mktemp -d "${TMPDIR:-/tmp}/verifself-XXXXXX") || exit 3
trap 'git -C /repo worktree remove --force "$drv/base" 2>/dev/null; rm -rf "$drv" "$D"' EXIT
export VERIF_DIR=$PWD
(cd driver && go build -o "$drv/verifdriver" .) || exit 3
bad=0
D=$("$drv/verifdriver" build C09 all) || exit 3
for p in C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C17 C18 C19 C20; do
	i=0
	for e in "LANG=C" "GODEBUG=clobberfree=1 LANG=x" "X=$(head -c 3000 /dev/zero | tr '\0' x)"; do
		i=$((i+1))
		env -i $(cat "$D/env") $(echo $e) "$D/simbin" digest -prop $p -base 4294967296 -step 3 -count "$n" > "$drv/d$i" || bad=1
	done
	if [ -s "$drv/d1" ] && cmp -s "$drv/d1" "$drv/d2" && cmp -s "$drv/d1" "$drv/d3"; then
		echo "determinism $p: $(wc -l < "$drv/d1") runs, three processes, same hashes"
	else
		echo "determinism $p: DIFFERENT"; diff "$drv/d1" "$drv/d2" | head -3; diff "$drv/d1" "$drv/d3" | head -3; bad=1
	fi
done
base=$(git -C /repo rev-list --max-parents=0 HEAD 2>/dev/null | tail -1)
if [ -n "$base" ] && [ "$base" != "$(git -C /repo rev-parse HEAD)" ]; then
	git -C /repo worktree add -q --detach "$drv/base" "$base" || exit 3
	# its known defects come first in some histories: enough that each check
	# that they concern reports something
	for p in C01 C03 C04 C08 C09 C11 C13 C18 C19; do
		out=$(VERIF_REPO=$drv/base VERIF_SECS=20 "$drv/verifdriver" check $p 2>/dev/null | grep '^VIOLATION')
		f=${out##*replay=}
		if [ -n "$out" ] && VERIF_REPO=$drv/base "$drv/verifdriver" replay "$f" 2>/dev/null | grep -q '^VIOLATION'; then
			echo "sensitivity $p: reported and replayed on the tree before the repairs"
		else
			echo "sensitivity $p: NOT REPORTED"; bad=1
		fi
	done
fi
exit $bad
