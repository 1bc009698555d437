#!/bin/sh
# Builds every variant once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 2
exec ./check.sh -build
