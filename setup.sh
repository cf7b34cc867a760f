#!/bin/bash
# Builds the verifier once, to fail early if the toolchain is not there.
exec bash "$(dirname "$0")/check.sh"
