#!/bin/bash
# Builds verifypn from the current directory's tree and compares its verdicts with the known truth.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
python3 "$here/kit/kit.py" "$work/b" || exit 3
rc=0
for c in "$here"/case*/; do
  cd "$c" || exit 3
  timeout 20 "$work/b/verifypn" $(cat args) >"$work/out" 2>"$work/err"
  st=$?
  while read -r line; do grep -qE "^$line( |\$)" "$work/out" || { echo "expected '$line', got: $(grep ^FORMULA "$work/out" | head -3)"; rc=1; }; done < expect
  [ $st = 0 ] || { echo "exit status $st"; rc=1; }
done
exit $rc
