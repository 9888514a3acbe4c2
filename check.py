#!/usr/bin/env python3
"""check.py <property>: run the check of one property of /verif/properties.jsonl."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
import checks_chain, checks_tx, checks_codec, checks_crypto, checks_p2p

REGISTRY = {}
for m in (checks_chain, checks_tx, checks_codec, checks_crypto, checks_p2p):
    REGISTRY.update(m.CHECKS)

if __name__ == '__main__':
    sys.exit(vlib.main(REGISTRY))
