# Helpers for a C++ demonstration: sourced by demo.sh, cwd is /repo.
set -e
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
# gencc FILE.proto: generate C++ code into $W
gencc() {
  protoc -I "$HERE" -I "$REPO" --plugin="$REPO/bin/protoc-gen-validate" --cpp_out="$W" --validate_out="lang=cc:$W" "$1"
  protoc -I "$REPO" --cpp_out="$W" validate/validate.proto
  cp "$REPO/validate/validate.h" "$W/validate/"
}
# runcc MAIN: build and run the program against the generated code
runcc() {
  cp "$HERE/$1" "$W/main.cc"
  for f in main demo.pb demo.pb.validate validate/validate.pb; do
    clang++ -std=c++17 -w -I "$W" -c "$W/$f.cc" -o "$W/$(basename $f).o" &
  done
  wait
  clang++ "$W/main.o" "$W/demo.pb.o" "$W/demo.pb.validate.o" "$W/validate.pb.o" -lprotobuf -lre2 -lpthread -o "$W/main"
  "$W/main"
}
