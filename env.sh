export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GOWORK=off
unset GOEXPERIMENT GODEBUG GOGC GOMEMLIMIT GOMAXPROCS
