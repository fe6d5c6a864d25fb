"""Rewrites the table of planted bugs in DESIGN.md from plants.py."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plants

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'DESIGN.md')
text = open(path).read()
head = '| bug | property | needs |\n|-----|----------|-------|\n'
rows = ''.join(f"| {b['id']} | {b['prop']} | {b['needs'].replace('|', chr(92) + '|')} |\n" for b in plants.BUGS
               if os.path.isdir(os.path.join(os.path.dirname(path), 'seeded', b['id'])))
start = text.index(head) + len(head)
end = re.compile(r'^(?!\|)', re.M).search(text, start).start()
open(path, 'w').write(text[:start] + rows + text[end:])
