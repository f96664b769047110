# sourced by check.sh and setup.sh: an offline Go environment
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && { PATH="$d:$PATH"; break; }
done
export PATH
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export RVMON_RACE_CHECKS="C12"
