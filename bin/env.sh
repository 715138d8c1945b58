# Sourced. Go environment for building the harness against /repo's working tree, offline.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export VERIF
REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.24.13
export PATH="$GOROOT/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off GOFLAGS=
export GOPATH=/root/go GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOEXPERIMENT=synctest
export CGO_ENABLED=0

# gen_overlay DIR: regenerate every .proto of /repo's working tree into DIR/gen and
# write DIR/overlay.json so that the Go build sees exactly that generated code
# (stale generated files in /repo are masked).
gen_overlay() {
  local dir="$1" p rc=0 pg=/opt/vp/tools/protoc-gen-go pc=/opt/vp/tools/protoc-gen-connect-go
  mkdir -p "$dir/gen"
  if [ ! -x "$pg" ] || [ ! -x "$pc" ]; then
    mkdir -p "$dir/tools"
    (cd "$VERIF/harness" &&
      go build -o "$dir/tools/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go &&
      go build -o "$dir/tools/protoc-gen-connect-go" connectrpc.com/connect/cmd/protoc-gen-connect-go) || return 1
    pg="$dir/tools/protoc-gen-go" pc="$dir/tools/protoc-gen-connect-go"
  fi
  while read -r p; do
    (cd "$REPO" && protoc -I . -I "$VERIF/stubs/reduction-protocol" \
      --plugin=protoc-gen-go="$pg" --go_opt=paths=source_relative --go_out="$dir/gen" \
      --plugin=protoc-gen-connect-go="$pc" --connect-go_opt=paths=source_relative --connect-go_out="$dir/gen" "$p") || rc=1
  done < <(cd "$REPO" && find proto connectors -name '*.proto' | sort)
  python3 - "$dir" "$REPO" <<'P' || rc=1
import os,sys,json
d,repo=sys.argv[1:3]
rep={}
for top in ('proto','connectors'):
    for r,_,fs in os.walk(os.path.join(repo,top)):
        for f in fs:
            if f.endswith(('.pb.go','.connect.go')):
                rep[os.path.join(r,f)]=''
for r,_,fs in os.walk(os.path.join(d,'gen')):
    for f in fs:
        src=os.path.join(r,f)
        rep[os.path.join(repo,os.path.relpath(src,os.path.join(d,'gen')))]=src
json.dump({'Replace':rep},open(os.path.join(d,'overlay.json'),'w'),indent=1)
P
  return $rc
}
