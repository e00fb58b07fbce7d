#!/bin/bash
# Run with the working directory at CubeFlix/nn: exit 0 when the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.go "$work/" || exit 2
cp "$repo/go.sum" "$work/go.sum"
cat > "$work/go.mod" <<M
module demo

go 1.17

require (
	github.com/cubeflix/nn v0.0.0
	golang.org/x/exp v0.0.0-20220915105810-2d61f44442a3
)

replace github.com/cubeflix/nn => $repo
M
cd "$work" || exit 2
mkdir scratch
go build RACE -o demo . || exit 2
TMPDIR="$work/scratch" ./demo
