export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=/verif/.cache/gocache GOFLAGS=-mod=mod
