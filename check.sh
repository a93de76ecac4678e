#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [extra flags]   |   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root LANG=C.UTF-8
build() { mkdir -p bin && (cd engine && go build -o ../bin/verif.tmp . && mv ../bin/verif.tmp ../bin/verif); }
if [ "$1" = setup ]; then build; exit $?; fi
if [ ! -x bin/verif ] || [ -n "$(find engine -newer bin/verif -name '*.go' | head -1)" ]; then build || exit 2; fi
if [ "$1" = replay ]; then shift; exec bin/verif replay "$@"; fi
p=$1; t=$2; shift 2
exec bin/verif -prop "$p" -tier "$t" -root "$PWD" "$@"
