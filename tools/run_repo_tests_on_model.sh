#!/bin/bash
# Translator validation: the repository's own tests with the Redis model in
# place of burner_redis (plain, concrete execution).
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 REDIS_VERSION=memory PYTHONPATH="$(dirname "$(realpath "$0")")"
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
export COVERAGE_FILE="$work/cov"
cd /repo
/opt/venv/bin/python -m pytest -q -p repo_tests_plugin -p no:cacheprovider -p no:randomly \
  -o addopts=--import-mode=importlib -n 6 --timeout=30 "$@"
