#!/bin/bash
# check.sh ID [-thorough]: decides one property for the code in /repo.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/gosym ] || [ -n "$(find engine cmd go.mod -newer bin/gosym -print -quit)" ]; then
  bash setup.sh || exit 2
fi
exec ./bin/gosym check "$@"
