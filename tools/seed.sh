#!/bin/bash
# usage: seed.sh ID... : verifies planted bugs in a scratch copy of /repo (builds, stable tests pass, demo distinguishes).
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
for id in "$@"; do
	d=${ROOT:-/verif}/seeded/$id
	w=/tmp/seedwork.$$
	rm -rf "$w"; mkdir "$w"; cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
	r="$id:"
	( cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1 ) && r="$r clean=ok" || r="$r CLEAN-DEMO-FAILS"
	( cd "$w/repo" && git apply "$d/patch.diff" ) || r="$r DOES-NOT-APPLY"
	( cd "$w/repo" && go build ./... >/dev/null 2>&1 ) || r="$r DOES-NOT-BUILD"
	( cd "$w/repo" && go vet ./... >/dev/null 2>&1 ) || r="$r (vet complains)"
	( cd "$w/repo" && go test -json ./data ./gcode/... 2>/dev/null | grep -c '"Action":"fail"' > "$w/fails" ); r="$r testfails=$(cat "$w/fails")"
	( cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/bad.log" 2>&1 ) && r="$r DEMO-MISSES" || r="$r patched=fails"
	# does the patch touch original lines?
	n=0
	while read -r f l; do
		h=$(git -C /repo blame -s -L "$l,$l" HEAD -- "$f" | cut -d' ' -f1)
		case $h in ^c4a1bae*|c4a1bae*) n=$((n+1)) ;; esac
	done < <(awk '/^--- a\//{f=substr($2,3)} /^@@/{split($2,a,","); l=-a[1]; next} /^-/&&!/^---/{print f,l; l++; next} /^ /{l++}' "$d/patch.diff")
	r="$r original-lines=$n"
	echo "$r"
	[ -n "$V" ] && { tail -5 "$w/clean.log"; echo ---; tail -${V} "$w/bad.log"; }
	rm -rf "$w"
done
