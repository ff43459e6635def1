# Helpers for a Python demonstration: sourced by demo.sh, cwd is /repo.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
runpy() { /usr/bin/python3 "$HERE/$1"; }
