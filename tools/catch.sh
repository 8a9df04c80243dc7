#!/bin/bash
# usage: catch.sh ID [CHECK...] : runs the check of the planted bug's property (or the given checks) against it,
# in scratch copies of /repo and /verif, so that neither is touched.
id=$1; shift
d=${ROOT:-/verif}/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -eq 0 ] && set -- "$p"
w=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/verif"; cp -a "${ROOT:-/verif}/run.sh" "${ROOT:-/verif}/mc" "$w/verif/"
cp "${ROOT:-/verif}"/known_findings.json "$w/verif/" 2>/dev/null
sed -i "s#=> /repo#=> $w/repo#" "$w/verif/mc/go.mod"
git -C "$w/repo" apply "$d/patch.diff" || exit 2
for c in "$@"; do
	out=$(timeout 900 "$w/verif/run.sh" "$c" ${TIER:+--tier $TIER} 2>&1); rc=$?
	echo "$id $c rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -A1 '^  case' | tr '\n' ' ' | cut -c1-${W:-220})"
done
