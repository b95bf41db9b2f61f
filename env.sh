# Sourced by run.sh and build.sh: the Go toolchain with the network off.
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/go/bin
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
