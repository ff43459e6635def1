"""mk.seed(id, property, needs, breaks, edits, files): writes /verif/seeded/<id>.
edits: [(path, old, new)] on /repo HEAD; files: {name: text}."""
import json, os, subprocess, difflib, stat
ROOT = '/verif/seeded'
GOLIB = open('/verif/seedlib/golib.sh').read()
def seed(id, prop, needs, breaks, edits, files):
    d = f'{ROOT}/{id}'
    os.makedirs(d, exist_ok=True)
    patch = ''
    bypath = {}
    for p, old, new in edits:
        src = bypath.setdefault(p, [None, None])
        if src[0] is None:
            src[0] = src[1] = open('/repo/' + p, newline='').read()
        assert src[1].count(old) == 1, (id, p, src[1].count(old), old)
        src[1] = src[1].replace(old, new)
    for p, (a, b) in bypath.items():
        patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + p, 'b/' + p))
    open(f'{d}/patch.diff', 'w', newline='').write(patch)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    for n, t in files.items():
        os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True)
        open(f'{d}/{n}', 'w').write(t)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', f'{d}/patch.diff'])
    print(id, 'ok')

def go(proto, main, imports=()):
    """files for a Go demonstration: proto body (messages) and main body (checks)."""
    return {
        'golib.sh': GOLIB,
        'demo.proto': 'syntax = "proto3";\npackage demo;\noption go_package = "demo/t;t";\nimport "validate/validate.proto";\nimport "google/protobuf/wrappers.proto";\nimport "google/protobuf/duration.proto";\nimport "google/protobuf/timestamp.proto";\nimport "google/protobuf/any.proto";\n' + proto,
        'main.txt': 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"demo/t"\n' + ''.join(f'\t"{i}"\n' for i in imports) + ')\n\ntype validator interface {\n\tValidate() error\n\tValidateAll() error\n}\n\nvar bad bool\n\nfunc expect(what string, m validator, ok bool) {\n\tif err := m.Validate(); (err == nil) != ok {\n\t\tfmt.Println(what, "Validate:", err)\n\t\tbad = true\n\t}\n\tif err := m.ValidateAll(); (err == nil) != ok {\n\t\tfmt.Println(what, "ValidateAll:", err)\n\t\tbad = true\n\t}\n}\n\nfunc main() {\n' + main + '\n\tif bad {\n\t\tos.Exit(1)\n\t}\n}\n',
        'demo.sh': '. "$(dirname "$0")/golib.sh"\ngen demo.proto\nrun main.txt\n',
    }

HEAD = 'syntax = "proto3";\npackage demo;\noption go_package = "demo/t;t";\nimport "validate/validate.proto";\nimport "google/protobuf/wrappers.proto";\nimport "google/protobuf/duration.proto";\nimport "google/protobuf/timestamp.proto";\nimport "google/protobuf/any.proto";\n'

def verdicts(cases):
    """files for a demonstration that the generator refuses or accepts schemas: [(body, accept)]"""
    files, sh = {}, '''set -e
REPO=$(pwd); HERE=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
bad=0
# try FILE WANT: WANT is accept or refuse
try() {
  if protoc -I "$HERE" -I "$REPO" --plugin="$REPO/bin/protoc-gen-validate" --validate_out="lang=go,paths=source_relative:$W" "$1" > "$W/log" 2>&1; then got=accept; else got=refuse; fi
  if grep -q "panic:" "$W/log"; then got=crash; fi
  if [ $got != $2 ]; then echo "$1: $got"; head -3 "$W/log"; bad=1; fi
}
'''
    for i, (b, ok) in enumerate(cases):
        files[f'c{i}.proto'] = HEAD + b + '\n'
        sh += f'try c{i}.proto {"accept" if ok else "refuse"}\n'
    files['demo.sh'] = sh + 'exit $bad\n'
    return files

def outputs(protos, runs):
    """protos: {path: text}; runs: [(opts, [files], [expected outputs])]; None as expectation: refused"""
    files, sh = {}, '''set -e
REPO=$(pwd); HERE=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
bad=0; n=0
# outs OPTS "FILES" "EXPECTED": names of the generated files
outs() {
  n=$((n+1)); mkdir -p "$W/$n"
  if protoc -I "$HERE/protos" -I "$REPO" --plugin="$REPO/bin/protoc-gen-validate" --validate_out="$1:$W/$n" $2 > "$W/log" 2>&1; then
    got=$(cd "$W/$n" && find . -type f | sed 's#^./##' | LC_ALL=C sort | tr '\\n' ' ')
  else got="refused "; fi
  if [ "$got" != "$3 " ]; then echo "$1 $2: got $got want $3"; bad=1; fi
}
'''
    for p, t in protos.items():
        files['protos/' + p] = t
    for o, fs, ex in runs:
        sh += f'outs "{o}" "{" ".join(fs)}" "{"refused" if ex is None else " ".join(sorted(ex))}"\n'
    files['demo.sh'] = sh + 'exit $bad\n'
    return files

CCLIB = open('/verif/seedlib/cclib.sh').read()
def cc(proto, main):
    """files for a C++ demonstration: proto body and main body, which calls expect(what, message, accept)"""
    return {
        'cclib.sh': CCLIB,
        'demo.proto': HEAD.replace('demo/t;t', 'demo/t;t') + proto,
        'main.txt': '#include <cstdio>\n#include <string>\n#include "demo.pb.h"\n#include "demo.pb.validate.h"\n\nstatic int bad = 0;\n\ntemplate <typename T> void expect(const char* what, const T& m, bool ok) {\n  std::string err;\n  if (demo::Validate(m, &err) != ok) {\n    std::printf("%s: %s\\n", what, ok ? err.c_str() : "accepted");\n    bad = 1;\n  }\n}\n\nint main() {\n' + main + '\n  return bad;\n}\n',
        'demo.sh': '. "$(dirname "$0")/cclib.sh"\ngencc demo.proto\nruncc main.txt\n',
    }

JLIB = open('/verif/seedlib/javalib.sh').read()
def java(main, sources, stubs):
    """files for a Java demonstration of runtime classes: main body, sources of /repo to compile, {path: text} of stand-ins for third-party classes"""
    return dict({
        'javalib.sh': JLIB,
        'Main.txt': main,
        'demo.sh': '. "$(dirname "$0")/javalib.sh"\nbuild ' + ' '.join(sources) + '\nrunmain\n',
    }, **{'stubs/' + k: v for k, v in stubs.items()})
