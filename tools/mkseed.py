#!/usr/bin/env python3
"""Makes one seeded change from a description file and confirms it.

mkseed.py SPEC.py   (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS and either
PROTO+GO for the common Go demonstration, or FILES with a demo.sh)
The change is applied to /repo for the duration of the confirmation only."""
import json
import os
import shutil
import subprocess
import sys

SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')

DEMO_GO = r'''#!/bin/bash
# Generates Go validators for t.proto with the plugin built from the current
# directory (/repo) and runs main.go against them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export GOCACHE=${GOCACHE:-$d/cache} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p "$d/bin" "$d/m/t"
GOFLAGS=-mod=readonly go build -o "$d/bin/protoc-gen-validate" . || exit 3
GOFLAGS=-mod=readonly go build -o "$d/bin/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go || exit 3
cp "$here/t.proto" "$d/t.proto"
cat > "$d/m/go.mod" <<M
module demo

go 1.21

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)

replace github.com/envoyproxy/protoc-gen-validate => $repo
M
cat go.sum tests/go.sum | sort -u > "$d/m/go.sum"
(cd "$d" && protoc -I . -I "$repo" --plugin="$d/bin/protoc-gen-go" --plugin="$d/bin/protoc-gen-validate" \
  --go_out=module=demo:m --validate_out=lang=go,module=demo:m t.proto) || exit 1
cp "$here/main.go.txt" "$d/m/main.go"
cd "$d/m" && GOFLAGS=-mod=mod go run .
'''

DEMO_RULES = r'''#!/bin/bash
# The plugin built from the current directory (/repo) must accept good*.proto
# and stop with an error on bad*.proto.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export GOCACHE=${GOCACHE:-$d/cache} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p "$d/bin" "$d/out"
GOFLAGS=-mod=readonly go build -o "$d/bin/protoc-gen-validate" . || exit 3
cp "$here"/*.proto "$d/"
cd "$d" || exit 3
rc=0
for f in *.proto; do
  protoc -I . -I "$repo" --plugin="$d/bin/protoc-gen-validate" --validate_out=lang=go:out "$f" >log 2>&1
  r=$?
  case $f in
  good*) [ $r -eq 0 ] || { echo "$f rejected:"; cat log; rc=1; } ;;
  bad*) [ $r -ne 0 ] || { echo "$f accepted"; rc=1; } ;;
  esac
done
exit $rc
'''

DEMO_CC = r'''#!/bin/bash
# Generates C++ validators for t.proto with the plugin built from the current
# directory (/repo) and runs main.cc against them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export GOCACHE=${GOCACHE:-$d/cache} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p "$d/bin" "$d/out"
GOFLAGS=-mod=readonly go build -o "$d/bin/protoc-gen-validate" . || exit 3
cp "$here/t.proto" "$d/t.proto"
cp "$here/main.cc" "$d/main.cc"
cd "$d" || exit 3
protoc -I . -I "$repo" --cpp_out=out t.proto validate/validate.proto || exit 3
protoc -I . -I "$repo" --plugin="$d/bin/protoc-gen-validate" --validate_out=lang=cc:out t.proto || exit 1
for f in out/t.pb.cc out/validate/validate.pb.cc out/t.pb.validate.cc main.cc; do
  clang++ -std=c++17 -w -Iout -I"$repo" -c "$f" -o "$f.o" &
  p="$p $!"
done
for q in $p; do wait $q || exit 1; done
clang++ -o demo out/t.pb.cc.o out/validate/validate.pb.cc.o out/t.pb.validate.cc.o main.cc.o -lprotobuf -lre2 -lpthread || exit 1
./demo
'''

DEMO_JAVA = r'''#!/bin/bash
# Generates Java validators for t.proto with the plugin built from the current
# directory (/repo), compiles them with its runtime classes and the stand-ins
# under lib, and runs t.Main.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export GOCACHE=${GOCACHE:-$d/cache} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p "$d/bin" "$d/out" "$d/cls"
GOFLAGS=-mod=readonly go build -o "$d/bin/protoc-gen-validate" . || exit 3
cp "$here/t.proto" "$d/t.proto"
(cd "$d" && protoc -I . -I "$repo" --plugin="$d/bin/protoc-gen-validate" --validate_out=lang=java:out t.proto) || exit 1
find "$here/lib" "$repo/java/pgv-java-stub/src/main/java" "$d/out" -name '*.java' > "$d/list"
ls "$here"/*.java >> "$d/list"
javac --release 8 -nowarn -encoding UTF-8 -Xlint:none -d "$d/cls" "@$d/list" || exit 1
java -cp "$d/cls" t.Main
'''

DEMO_PY = r'''#!/bin/bash
# Runs validator.py of the current directory (/repo) on the messages of
# cases.txt (verdict, then the message as JSON), with the stand-ins for jinja2
# and protobuf under lib.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export PYTHONDONTWRITEBYTECODE=1
cp "$here/t.proto" "$d/t.proto"
(cd "$d" && protoc -I . -I "$repo" --include_imports --descriptor_set_out=ds.bin t.proto) || exit 3
rc=0
while read -r want tree; do
  [ -n "$want" ] && printf '{"v": %s}\n' "$tree" >> "$d/in" && echo "$want" >> "$d/want"
done < "$here/cases.txt"
python3 "$here/lib/pgvsym/pystub/pgvdrive.py" "$repo/python" check "$d/ds.bin" < "$d/in" > "$d/out" || exit 3
cut -c1 "$d/out" > "$d/got"
if ! diff "$d/want" "$d/got"; then cat "$d/out"; exit 1; fi
'''

CC_HEAD = '''#include <cstdio>
#include <string>
#include "t.pb.validate.h"
static int bad = 0;
template <typename T> static void check(const T& m, bool want, const char* what) {
  std::string e;
  bool got = !want;
  try {
    got = Validate(m, &e);
  } catch (const pgv::UnimplementedException&) {
    got = want;
  } catch (const std::exception& x) {
    printf("%s throws %s\\n", what, x.what());
  }
  if (got != want) {
    printf("%s: got %d\\n", what, (int)got);
    bad = 1;
  }
}
'''

PROTO_HEAD = '''syntax = "proto3";
package t;
option go_package = "demo/t;t";
import "validate/validate.proto";
'''


def sh(c, **kw):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(SEED, ns['ID'])
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    assert not sh(['git', '-C', '/repo', 'status', '--short']).stdout.strip()
    global PROTO_HEAD
    PROTO_HEAD = PROTO_HEAD.replace('proto3', ns.get('SYNTAX', 'proto3'))
    files = dict(ns.get('FILES', {}))
    if 'GO' in ns:
        files['demo.sh'] = DEMO_GO
        files['t.proto'] = PROTO_HEAD + ns['PROTO']
        files['main.go.txt'] = ns['GO']
    if 'CC' in ns:
        files['demo.sh'] = DEMO_CC
        files['t.proto'] = PROTO_HEAD + ns['PROTO']
        files['main.cc'] = CC_HEAD + ns['CC']
    if 'JAVA' in ns:
        files['demo.sh'] = DEMO_JAVA
        files['t.proto'] = PROTO_HEAD + ns['PROTO']
        for n, t in ns['JAVA'].items():
            files[n] = t
        shutil.copytree(os.path.join(os.path.dirname(SEED), 'pgvsym', 'java'), os.path.join(d, 'lib'))
        if ns.get('GRPC'):
            shutil.copytree(os.path.join(os.path.dirname(SEED), 'pgvsym', 'jgrpc'), os.path.join(d, 'lib'), dirs_exist_ok=True)
            files['demo.sh'] = files['demo.sh'].replace('"$repo/java/pgv-java-stub/src/main/java"', '"$repo/java/pgv-java-stub/src/main/java" "$repo/java/pgv-java-grpc/src/main/java"')
    if 'PY' in ns:
        files['demo.sh'] = DEMO_PY
        files['t.proto'] = PROTO_HEAD + ns['PROTO']
        files['cases.txt'] = ns['PY']
        src = os.path.join(os.path.dirname(SEED), 'pgvsym')
        lib = os.path.join(d, 'lib', 'pgvsym')
        shutil.copytree(os.path.join(src, 'pystub'), os.path.join(lib, 'pystub'), ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(os.path.join(src, 'desc.py'), lib)
        open(os.path.join(lib, '__init__.py'), 'w').close()
    if 'RULES' in ns:
        files['demo.sh'] = DEMO_RULES
        for n, t in ns['RULES'].items():
            files[n + '.proto'] = PROTO_HEAD + t
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)
        if n.endswith('.sh'):
            os.chmod(os.path.join(d, n), 0o755)
    ok = False
    try:
        for f, a, b in ns['EDITS']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        diff = sh(['git', '-C', '/repo', 'diff']).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        print('with patch: demo rc', r.returncode, r.stdout[-600:])
        bad = r.returncode
        sh(['bash', '/opt/vp/test.sh', '/tmp/w/seedtest.json'])
        try:
            got = json.load(open('/tmp/w/seedtest.json'))
        except OSError:
            got = {}
        base = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(base['stable']) - set(got.get('passed', []))
        print('tests missing:', len(miss), sorted(miss)[:5])
        ok = bad != 0 and not miss
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
    print('without patch: demo rc', r.returncode, r.stdout[-600:] if r.returncode else '')
    sh(['bash', '/opt/vp/build.sh'])
    ok = ok and r.returncode == 0
    print('SEED', ns['ID'], 'OK' if ok else 'REJECTED')
    if not ok and '-k' not in sys.argv:
        shutil.rmtree(d)


main()
