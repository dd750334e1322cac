#!/bin/bash
# Nothing to build: TLC reads the specifications, the repository's interpreter imports /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3-vt -c 'import sys; sys.path.insert(0, "lib"); import tlc; tlc.find_tlc()' || exit 1
test -x /opt/venv/bin/python
