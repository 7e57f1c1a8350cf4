#!/bin/bash
# tools/unfix.sh [COMMIT ...]: takes back each repair in a scratch copy and confirms that its property's check
# reports a violation again.  A repair that later ones build on does not revert cleanly: only its non-conflicting
# hunks go back ("partial"), or none ("conflict").
cd /verif
grep '^fixed:' known_findings.jsonl | while read -r _ p c what; do
  p=${p#property=}
  [ $# -gt 0 ] && ! [[ " $* " == *" $c "* ]] && continue
  T=$(mktemp -d /tmp/unfix.XXXXXX); chmod 755 "$T"
  cp -a /repo "$T/repo"
  how=clean
  if ! git -C "$T/repo" revert --no-commit "$c" >/dev/null 2>&1; then
    git -C "$T/repo" reset -q --hard
    git -C "$T/repo" show "$c" | git -C "$T/repo" apply -R --reject >/dev/null 2>&1
    how=partial; [ -z "$(git -C "$T/repo" diff --stat)" ] && how=conflict
  fi
  if [ $how = conflict ]; then echo "$c $p conflict"; else
    MC_REPO="$T/repo" ./check "$p" quick >"$T/out" 2>&1; rc=$?
    echo "$c $p $how rc=$rc $(grep -c '^VIOLATION' "$T/out") $(grep -m1 -A2 'is violated\|rror' "$T/out" | tail -1 | cut -c1-90)"
  fi
  rm -rf "$T"
done
