#!/bin/bash
# tools/seeded.sh ID [PROPS...]: development tool. Checks a planted bug in a scratch copy (applies, builds, stable tests,
# demo clean/patched), then runs the named checks (default: its own property) against the scratch copy.
id="$1"; shift
here="$(cd "$(dirname "$0")/.." && pwd)"; s="$here/seeded/$id"
w="$(mktemp -d /tmp/seed.XXXXXX)"; trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$s" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cd "$w/repo" || exit 2
export PYTHONDONTWRITEBYTECODE=1
bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
PYTHONPATH="$w/repo" /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests > "$w/test.log" 2>&1; t=$?
bash "$w/demo/demo.sh" > "$w/bad.log" 2>&1; b=$?
echo "$id: demo clean=$a patched=$b tests=$t  $(tail -1 "$w/bad.log" | cut -c1-150)"
[ $a -ne 0 ] && tail -5 "$w/clean.log"
props="${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}"
[ "$NOCHECK" ] || for p in $props; do
  VT_REPO="$w/repo" VT_EVIDENCE="$w" "$here/check" $p > "$w/check.log" 2>&1; c=$?
  echo "   $p exit=$c $(grep -m1 '^  \[' "$w/check.log" | cut -c1-220) $(grep -m1 INCONC "$w/check.log")"
done
