"""stdin: dict of fields to change of one property; argv: ID."""
import json, sys
p = __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'properties.jsonl'); L = [json.loads(l) for l in open(p)]
ch = eval(sys.stdin.read())
for d in L:
    if d['id'] == sys.argv[1]: d.update(ch)
open(p, 'w').write(''.join(json.dumps(d) + '\n' for d in L))
