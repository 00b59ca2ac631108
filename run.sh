#!/bin/bash
# run.sh <property> <quick|thorough>   decide one property
# run.sh replay <property>             replay the counterexample stored for it (E1 checks)
# run.sh setup                         warm the build cache
# Builds the harness from /repo's current working tree and runs the check. Exit 0: held on
# everything explored; exit 1 + VIOLATION line: broken.
. /opt/vp/env.sh
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export PATH="$PATH:/usr/local/go/bin"
H="$VERIF_ROOT/harness"
B="$VERIF_ROOT/.build"
export GOFLAGS=-mod=mod

# E1: explored under the controlled scheduler (instrumented sources); E2: plain sources
engine() {
  case "$1" in
    C07|C08|C09|C10) echo "e1 creq" ;;
    C06) echo "e1 cft e2 ecache" ;;
    C11) echo "e1 cft" ;;
    C03) echo "e1 cft e2 etree e2 eproxy" ;;
    C01|C04|C05|C12) echo "e2 etree e2 eproxy" ;;
    C02) echo "e2 etree e2 earith" ;;
    C16) echo "e1 ccrypt" ;;
    C24) echo "e1 ccrypt e2 earith" ;;
    C13) echo "e2 enames" ;;
    C14) echo "e2 econf" ;;
    C23) echo "e2 ekey" ;;
    C15) echo "e2 ecrash" ;;
    C17) echo "e1 cpool e2 ebackend" ;;
    C18|C19) echo "e2 esftp e2 eproxy" ;;
    C20|C21|C22|C26|C27) echo "e2 eproxy" ;;
    C25) echo "e2 etree e2 eproxy" ;;
    *) echo "none" ;;
  esac
}
raced() { case "$1" in C06|C07|C09|C11|C16|C17|C24) return 0 ;; esac; return 1; }

prep() { # $1: build dir
  mkdir -p "$1" && cp "$H/go.mod" "$H/go.sum" "$1/" || return 1
}
GB() { go build -mod=mod -modfile="$D/go.mod" "$@"; }

build_e1() { # $1 cmd  $2 race?
  D="$B/$1"; prep "$D" || return 1
  cd "$H" || return 1
  GB -o "$D/instr" ./instr || return 1
  rm -rf "$D/src"
  SW=""; [ "$1" = cpool ] && SW="-swap github.com/pkg/sftp=verif/msftp,golang.org/x/crypto/ssh=verif/mssh"
  "$D/instr" -out "$D/src" -overlay "$D/overlay.json" -modfile "$D/go.mod" $SW "./cmd/$1" || return 1
  GB -overlay "$D/overlay.json" -o "$D/check" "./cmd/$1" || return 1
  if [ "$2" = race ]; then GB -race -overlay "$D/overlay.json" -o "$D/check.race" "./cmd/$1" || return 1; fi
}
build_e2() { # $1 cmd
  D="$B/$1"; prep "$D" || return 1
  cd "$H" || return 1
  OV=""
  if [ -d "$H/overlay/$1" ]; then # files added to the repository's packages for this build only
    (cd "$H/overlay/$1" && find . -name '*.go.txt' | sed 's|^\./||; s|\.txt$||' | awk -v s="$H/overlay/$1" 'BEGIN{printf "{\"Replace\":{"} {printf "%s\"/repo/%s\":\"%s/%s.txt\"", (NR>1?",":""), $0, s, $0} END{print "}}"}') > "$D/overlay.json"
    OV="-overlay $D/overlay.json"
  fi
  GB $OV -o "$D/check" "./cmd/$1" || return 1
  if [ "$1" = eproxy ]; then GB -o "$D/proxy" github.com/flawedmatrix/gocryptsftp || return 1; fi # the program itself
}

undecided() { # the harness does not fit the current tree: say so, claim nothing
  echo "NOT DECIDED property=$1: the harness could not be built against the current tree"
  mkdir -p "$VERIF_ROOT/evidence"
  cat > "$VERIF_ROOT/evidence/$1.json" <<EOF
{"property": "$1", "tier": "$2", "seed": ${VERIF_SEED:-1}, "level": "other",
 "coverage": {"explanation": "harness could not be built against the current tree; nothing was explored", "exhaustive": false, "states": 0, "transitions": 0},
 "wall_s": 0, "violations": 0}
EOF
  # a tree that does not build at all is an error, not a verdict
  (cd /repo && go build -o /dev/null ./... ) || exit 2
  exit 0
}

if [ "$1" = setup ]; then
  for c in creq cft ccrypt cpool; do build_e1 $c race; done
  for c in ecache earith enames econf etree ekey esftp ebackend ecrash eproxy; do build_e2 $c; done
  exit 0
fi
if [ "$1" = replay ]; then
  set -- "$2" replay
fi
P="$1"; T="${2:-quick}"
set -- $(engine "$P")
[ "$1" = none ] && { echo "unknown property $P" >&2; exit 2; }
RC=0
export VERIF_MERGE=""
while [ $# -gt 0 ]; do
  case "$1" in
    e1)
      R=""; raced "$P" && R=race
      if ! build_e1 "$2" $R; then
        # the models behind cpool may lack what the tree uses of the libraries: the other engine decides
        [ "$2" = cpool ] && { echo "$2 does not fit the current tree: skipped"; shift 2; continue; }
        undecided "$P" "$T"
      fi
      if [ "$T" = replay ]; then exec "$B/$2/check" -prop "$P" -replay "$VERIF_ROOT/evidence/replay/$P.json"; fi
      RB=""; [ -n "$R" ] && RB="$B/$2/check.race"
      (cd "$VERIF_ROOT" && exec "$B/$2/check" -prop "$P" -tier "$T" -racebin "$RB") || RC=$? ;;
    e2)
      build_e2 "$2" || undecided "$P" "$T"
      if [ "$T" = replay ]; then exec "$B/$2/check" -prop "$P" -replay "$VERIF_ROOT/evidence/replay/$P.json"; fi
      (cd "$VERIF_ROOT" && exec "$B/$2/check" -prop "$P" -tier "$T") || RC=$? ;;
  esac
  [ $RC -ne 0 ] && exit $RC
  export VERIF_MERGE=1
  shift 2
done
exit 0
