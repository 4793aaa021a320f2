# Sourced by the scripts in /verif/bin.
export V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export GR=/opt/veriftools/go1.27.3
export PATH=$GR/bin:/usr/local/bin:/usr/bin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
export GOCACHE=$V/.cache/go GOROOT=$GR CGO_ENABLED=1
export VERIF_REPO=${VERIF_REPO:-/repo}
mkdir -p "$V/.cache"
