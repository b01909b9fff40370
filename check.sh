#!/bin/bash
# check.sh <property> quick|thorough : build the checker against /repo's current tree and run one check
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
export VERIF_DIR="$V"
P="$1"; T="${2:-quick}"
B="$("$V/build.sh")" || { echo "check: build failed" >&2; exit 2; }
ulimit -s unlimited 2>/dev/null
rc0=0
# the code under test took the whole process down (stack overflow, abort): that is a verdict too
crashed() { # $1 exit status
  case "$1" in 132|134|135|136|139)
    mkdir -p "$V/replays"; R="$V/replays/$P-crash.txt"
    { echo "the checker was ended by signal $(($1 - 128)) while it called the code under test"; tail -c 4000 "$V/target/err-$P.txt"; } >"$R"
    tail -20 "$R"
    echo "VIOLATION property=$P replay=$R"
    exit 1;;
  esac
}
case "$P" in
C02|C03|C04|C18)
  # the codec once more in the crate's small-buffer configuration (inline string/binary storage)
  S="$(MC_SSO=1 "$V/build.sh")" || { echo "check: sso build failed" >&2; exit 2; }
  O="$V/target/out-sso-$P.txt"
  MC_TAG=-sso "$S" "$P" "$T" >"$O" 2>&1; rc0=$?
  cp "$O" "$V/target/err-$P.txt"; crashed $rc0
  grep -v -e "^KNOWN-FINDING" -e "^note: listed" -e "^  [^ ]" "$O"
  export MC_NOTE="the same enumeration in the sso-lv10 feature set of the crate: $(grep "^$P " "$O" | tail -1)"
  if [ $rc0 -gt 1 ]; then exit $rc0; fi
  ;;
esac
"$B" "$P" "$T" 2> >(tee "$V/target/err-$P.txt" >&2); rc=$?
crashed $rc
if [ $rc -eq 0 ]; then exit $rc0; fi
exit $rc
