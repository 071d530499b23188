#!/bin/bash
# run in /repo; exits 0 if the property holds for this scenario
exec python3 "$(dirname "$0")/demo.py"
