# environment of the checks; everything is offline
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export GOVC_VERIF="$VERIF"
