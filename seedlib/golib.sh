# Helpers for a Go demonstration: sourced by demo.sh, cwd is /repo.
set -e
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
# gen FILE.proto...: generate Go code into $W/t
gen() {
  mkdir -p "$W/t"
  protoc -I "$HERE" -I "$REPO" --plugin="$REPO/bin/protoc-gen-go" --plugin="$REPO/bin/protoc-gen-validate" \
    --go_out="$W/t" --go_opt=paths=source_relative --validate_out="lang=go,paths=source_relative:$W/t" "$@"
}
# run MAIN.txt: run the program against the generated code
run() {
  mkdir -p "$W/m"
  cp "$HERE/$1" "$W/m/main.go"
  sed -e 's#^module .*#module demo#' "$REPO/go.mod" > "$W/go.mod"
  printf 'require github.com/envoyproxy/protoc-gen-validate v0.0.0\nreplace github.com/envoyproxy/protoc-gen-validate => %s\n' "$REPO" >> "$W/go.mod"
  cp "$REPO/go.sum" "$W/go.sum"
  (cd "$W" && go run ./m)
}
