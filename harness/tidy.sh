#!/bin/sh
# Writes go.mod and go.sum from /repo's (no network needed).
cd "$(dirname "$0")"
{ echo 'module verifharness'; echo; grep '^go ' /repo/go.mod; echo; echo 'require github.com/younglifestyle/secs4go v0.0.0'; echo
  sed -n '/^require (/,/^)/p' /repo/go.mod; echo; echo 'replace github.com/younglifestyle/secs4go => /repo'; } > go.mod
cp /repo/go.sum go.sum
