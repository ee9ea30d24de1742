#!/bin/bash
# Nothing is built: checks that the interpreter and the libraries the explorers need are there.
cd "$(dirname "$0")" && mkdir -p evidence replays && \
  /opt/venv/bin/python -c 'import numpy, erfa, jplephem; print("ready")'
