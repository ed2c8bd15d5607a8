# Go toolchain and offline settings, as in /opt/vp/env.sh.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
