#!/bin/bash
# development build: /tmp/h
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p /tmp/io && (cd /verif/instr && go build -o /tmp/instr .) && : > /tmp/io/ids && /tmp/instr -root ${REPO:-/repo} -out /tmp/io/src -ids /tmp/io/ids -rt /verif/verifrt/rt.go -overlay /tmp/io/ov.json -skip xstring,xmath,internal >/dev/null && cd /verif/harness && go vet -overlay /tmp/io/ov.json . ; go build -race -modfile /tmp/io/mod/go.mod -overlay /tmp/io/ov.json -o ${OUT:-/tmp/h} .
