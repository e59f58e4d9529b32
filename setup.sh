#!/bin/bash
# Warm the fact cache (the checks do this themselves when it is cold).
cd "$(dirname "$0")" && python3 -m vpa.facts && python3 -c 'from vpa import facts, ir; ir.Program.load(facts.get())'
