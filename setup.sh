#!/bin/bash
set -e
cd "$(dirname "$0")"
mkdir -p evidence
