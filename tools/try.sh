#!/bin/bash
# try.sh (-p PATCH | -r COMMIT) ID...: runs the quick checks ID... in scratch copies against /repo's HEAD
# with PATCH applied or COMMIT reverted. Scratch: /tmp/try. Prints one line per check.
set -u
T="${TRY_DIR:-/tmp/try}"; mkdir -p "$T/verif"
[ -d "$T/repo" ] && rm -rf "$T/repo"
git clone -q /repo "$T/repo" || exit 2
case "$1" in
  -p) git -C "$T/repo" apply "$2" || { echo "$2: does not apply"; exit 2; } ;;
  -r) git -C "$T/repo" -c user.name=x -c user.email=x@x revert --no-edit "$2" >/dev/null 2>&1 || { echo "$2: does not revert"; git -C "$T/repo" diff --name-only; exit 2; } ;;
esac
what="$2"; shift 2
cp -a /repo/Cargo.lock "$T/repo/" 2>/dev/null
if [ -z "${NOTEST:-}" ]; then
  (cd "$T/repo" && CARGO_TARGET_DIR="$T/rt" cargo test --offline --lib 2>&1 | grep -E "^test result|^error" | head -2)
fi
mkdir -p "$T/verif/mc"
cp -a /verif/check.sh "$T/verif/"
cp -a /verif/mc/Cargo.toml /verif/mc/Cargo.lock /verif/mc/src /verif/mc/vendor "$T/verif/mc/" 2>/dev/null
[ -d /verif/mc/.cargo ] && cp -a /verif/mc/.cargo "$T/verif/mc/"
sed -i "s#path = \"/repo\"#path = \"$T/repo\"#" "$T/verif/mc/Cargo.toml"
for id in "$@"; do
  s=$(date +%s); out=$(VERIF_TIER=${VERIF_TIER:-quick} "$T/verif/check.sh" "$id" 2>&1); rc=$?
  echo "$what $id rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -B40 VIOLATION | grep -vE "held|executions|choices" | cut -c1-220 | tail -3 | tr '\n' '|') $( [ $rc = 2 ] && echo "$out" | tail -3 )"
done
