if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on
