# the Go toolchain of the sandbox, offline
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x $d/go ] && { export PATH=$d:$PATH; break; }
done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
