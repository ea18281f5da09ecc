export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin; do [ -x $d/go ] && export PATH=$d:$PATH; done
export PATH=$PATH:/opt/veriftools/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOVER_VERIF=$PWD
unset GOVER_CACHE
