#!/bin/bash
# builds everything the checks need; the checks do the same on their own
cd "$(dirname "$0")" && exec python3 -c "from vlib import run; run.build()"
