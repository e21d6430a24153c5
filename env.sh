# toolchain environment of the checks
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
