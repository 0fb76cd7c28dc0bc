set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
rm -f /tmp/ov/*.go
/tmp/ov/instr -out /tmp/ov -sched /verif/tools/instr/sched.go.txt $INSTRARGS
cd /verif/harness && go build -overlay /tmp/ov/overlay.json -o /tmp/ov/drv .
