#!/bin/bash
# Builds the framework once, so that later builds are incremental.
. "$(dirname "${BASH_SOURCE[0]}")/build.inc.sh"
build_all
