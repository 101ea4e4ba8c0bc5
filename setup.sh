#!/bin/bash
# Builds the harness once (every check builds again what changed).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build && build_asan && build_api
