#!/bin/sh
# Writes harness/registry.go: the table of harness functions for native replays.
cd "$(dirname "$0")/.." || exit 1
{
	echo "// Code generated by tools/registry.sh; DO NOT EDIT."
	echo
	echo "package harness"
	echo
	echo "// All lists the harness functions."
	echo "var All = map[string]func(){"
	cat harness/*.go | grep -oE '^func [CT][0-9][0-9][A-Za-z0-9_]*\(\)' | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\t"\1": \1,/' | LC_ALL=C sort
	echo "}"
} >harness/registry.go.new
gofmt harness/registry.go.new >harness/registry.go && rm harness/registry.go.new
