cd /verif; . tools/env.sh; python3 tools/sync.py && (cd harness/aqh && cargo build --offline -q 2>&1 | tail -20)
