#!/bin/bash
# Nothing to build (pure Python): check that the interpreter and its libraries import
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
. ./env.sh
mkdir -p evidence replays
exec "$DST_PY" -c "from dst import build; build.mods(); print('ready')"
