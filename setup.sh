#!/bin/bash
# nothing to build: the checks import /repo/src directly; make sure the interpreter is usable
cd "$(dirname "$0")" && . /opt/vp/env.sh && mkdir -p evidence replays && exec /opt/venv/bin/python -c "from vf import boot; boot.load(); print('ok')"
