#!/bin/bash
# Builds the checkers from the committed files, offline.
cd "$(dirname "$0")" || exit 3
. ./lib.sh
build mc --release || exit 3
