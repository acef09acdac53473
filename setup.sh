#!/bin/bash
# Builds the driver once, to fail early if the sandbox cannot.
exec bash "$(dirname "$0")/check.sh" selftest
