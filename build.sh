#!/bin/bash
# Builds the harness and the fizzbee binary from /repo's current working tree into /verif/.build (git-ignored).
set -e
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${FIZZ_REPO:-/repo}
B=$VERIF/.build
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT GOFLAGS
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB=* GOFLAGS=-mod=mod
mkdir -p $B/bin $B/fizz/proto $B/h
put() { cmp -s "$1" "$2" || cp "$1" "$2"; }
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
{ cat $REPO/go.mod; printf '\nrequire fizz v0.0.0\nreplace fizz => %s/fizz\n' $B; } > $t/m
printf 'module fizz\n\ngo 1.22.4\n\n%s\n' \
  "$(grep -oE 'google.golang.org/protobuf v[^ ]+' $REPO/go.mod | head -1 | sed 's/^/require /')" > $t/fm
put $t/m $B/fizzbee.mod; put $REPO/go.sum $B/fizzbee.sum; put $t/fm $B/fizz/go.mod
cd $REPO
go build -buildvcs=false -modfile=$B/fizzbee.mod -o $B/bin/protoc-gen-go google.golang.org/protobuf/cmd/protoc-gen-go
mkdir $t/out
protoc -I $REPO/proto --plugin=$B/bin/protoc-gen-go --go_out=$t/out $REPO/proto/*.proto
for f in $t/out/fizz/proto/*.go; do put "$f" "$B/fizz/proto/${f##*/}"; done
for f in $B/fizz/proto/*.go; do [ -e "$t/out/fizz/proto/${f##*/}" ] || rm -f "$f"; done
# fizzbee command line binary
go build -buildvcs=false -modfile=$B/fizzbee.mod -o $B/bin/fizzbee . 
# harness module
{ sed -e 's/^module .*/module verifharness/' $REPO/go.mod
  printf '\nrequire (\n\tfizz v0.0.0\n\tgithub.com/fizzbee-io/fizzbee v0.0.0\n)\nreplace fizz => %s/fizz\nreplace github.com/fizzbee-io/fizzbee => %s\n' $B $REPO; } > $t/hm
put $t/hm $B/harness.mod; put $REPO/go.sum $B/harness.sum
cd $VERIF/harness
# the Markov chain analysis is not exported
printf '{"Replace": {"%s/modelchecker/verif_markov.go": "%s/harness/overlay/verif_markov.go"}}\n' "$(realpath $REPO)" $VERIF > $t/ov
put $t/ov $B/overlay.json
go build -buildvcs=false -modfile=$B/harness.mod -overlay=$B/overlay.json -o $B/bin/harness .
# plugin harness: the same framework in a module of its own, because the plugin is one
mkdir -p $B/mbt
for f in $VERIF/mbt/*.go $VERIF/harness/{framework,src,main}.go; do put "$f" "$B/mbt/${f##*/}"; done
{ sed -e 's/^module .*/module verifmbt/' $REPO/mbt/lib/go/go.mod
  printf '\nrequire github.com/fizzbee-io/fizzbee/mbt/lib/go v0.0.0\nreplace github.com/fizzbee-io/fizzbee/mbt/lib/go => %s/mbt/lib/go\n' $REPO; } > $t/pm
put $t/pm $B/mbt/go.mod; put $REPO/mbt/lib/go/go.sum $B/mbt/go.sum
cd $B/mbt
go build -buildvcs=false -o $B/bin/harness_mbt .
