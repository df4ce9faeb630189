#!/bin/sh
# Checks the design of Design.tla against Radix.tla: all behaviours of a small
# model, then random behaviours (per core) of a larger one.
cd "$(dirname "$0")/../spec" || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
run() {
	java -XX:+UseParallelGC -Xmx8g -Djava.io.tmpdir="$work" \
		-cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC \
		-workers 8 -noGenerateSpecTE -metadir "$work/meta" "$@" Design.tla >"$work/out" 2>&1
	code=$?
	grep -E "states generated|No error|violated|Finished|Error" "$work/out"
	return $code
}
run -config Design.cfg || exit 1
run -simulate num="${1:-50}" -depth 40 -config DesignSim.cfg || exit 1
