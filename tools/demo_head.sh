#!/bin/bash
set -e
D="$(cd "$(dirname "$0")" && pwd)"
mkdir -p _build/vpdemo
O="$(mktemp -d _build/vpdemo/d.XXXXXX)"
