#!/bin/bash
# Nothing to build: checks that the tools the simulator needs are present and that it starts on /repo's tree.
here="$(cd "$(dirname "$0")" && pwd)"
VERIF_SCALE=0.02 VERIF_SETUP=1 bash "$here/check.sh" --selftest
