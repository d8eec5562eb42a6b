#!/bin/bash
# try.sh PATCH PROP...: run checks against a patched /repo, then undo
git -C /repo apply "$(realpath $1)" || exit 1
for p in "${@:2}"; do /opt/venv/bin/python /verif/check.py $p | grep -v KNOWN | cut -c1-220; done
git -C /repo checkout -q -- .
