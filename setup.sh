#!/bin/bash
# Nothing to prepare: every check builds what it needs from /repo. Only verifies the toolchain is there.
cargo --version >/dev/null
