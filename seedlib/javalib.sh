# Helpers for a Java demonstration: sourced by demo.sh, cwd is /repo.
set -e
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
PGV=$REPO/java/pgv-java-stub/src/main/java
# build SOURCES: compile classes of the runtime (found along the source path) with the stand-ins beside this file
build() {
  mkdir -p "$W/s" "$W/o"
  if [ -d "$HERE/stubs" ]; then (cd "$HERE/stubs" && find . -name '*.txt' | while read -r f; do mkdir -p "$W/s/$(dirname "$f")"; cp "$f" "$W/s/${f%.txt}.java"; done); fi
  cp "$HERE/Main.txt" "$W/s/Main.java"
  javac -nowarn -d "$W/o" -sourcepath "$W/s:$PGV" "$W/s/Main.java" 2> "$W/log" || { cat "$W/log"; exit 2; }
}
runmain() { java -cp "$W/o" Main; }
