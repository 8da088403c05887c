#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")/tools" && exec python3 check.py "$@"
