"""note.py PID TECHNIQUE LEVEL_NOTE: update notes.json and MANIFEST.json"""
import json, sys, subprocess
d = json.load(open('/verif/notes.json')); d[sys.argv[1]] = sys.argv[2:4]
json.dump(d, open('/verif/notes.json', 'w'), indent=1)
subprocess.check_call([sys.executable, '/verif/mkmanifest.py'])
