"""Print a replay file compactly."""
import json, sys
d = json.load(open(sys.argv[1]))
p = d['plan']
print(d['violation'])
print(p.get('cfg'), 'order', p.get('order'))
for i, m in enumerate(p.get('messages', ())):
    print('  message', i, m)
for a in p.get('actors', ()):
    for o in a['ops']:
        print('  ', a['name'], o)
print('faults', p.get('faults'), 'preempt', p.get('preempt'), p.get('net', ''))
if len(sys.argv) > 2:
    print('\n'.join(d['log']))
