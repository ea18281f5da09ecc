#!/bin/bash
# Builds the verifier from the committed sources (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .bin evidence
cd gover && go build -o ../.bin/gover .
