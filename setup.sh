#!/bin/bash
# build both configurations of the checker
V="$(cd "$(dirname "$0")" && pwd)"
"$V/build.sh" && MC_SSO=1 "$V/build.sh"
