#!/bin/bash
cd "$(dirname "$0")"
ls ../../seeded | grep -E "${1:-.}" | xargs -P 4 -n 1 timeout 800 bash try.sh
