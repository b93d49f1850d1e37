#!/bin/bash
# ids.sh FILE: the ids of the seeds of a file under tools/seeds
python3 -c "d={}; exec(open('$1').read(),d); print(*[s['id'] for s in d['SEEDS']])"
