#!/bin/bash
# regenerates props/registry.go from the harness functions
cd "$(dirname "$0")/props" || exit 1
{
echo "// Code generated by gen.sh; DO NOT EDIT."
echo "package props"
echo
echo "// All maps harness names to functions for native replay."
echo "var All = map[string]func(){"
grep -ho '^func [A-Z][0-9][0-9]_[A-Za-z0-9_]*()' *.go | sed 's/^func //; s/()$//' | sort | while read -r n; do echo "	\"$n\": $n,"; done
echo "}"
echo
echo "// Bubble lists the harnesses that run in virtual time."
echo "var Bubble = map[string]bool{"
grep -ho '^func [A-Z][0-9][0-9]_[A-Za-z0-9_]*()' client*.go engine_std.go 2>/dev/null | sed 's/^func //; s/()$//' | sort | while read -r n; do echo "	\"$n\": true,"; done
echo "}"
} > registry.go.tmp && mv registry.go.tmp registry.go
gofmt -w registry.go
