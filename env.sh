# Environment of setup and checks: the toolchain of the image, a build cache of our own.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOCACHE=/root/.cache/go-build GOMODCACHE=${GOMODCACHE:-/opt/vp/cache/gomod}
