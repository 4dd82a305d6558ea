#!/bin/sh
# builds the harness with the code of /repo
cd "$(dirname "$0")" && exec python3 -B -c "from vlib import exe; exe.build()"
