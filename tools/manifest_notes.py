# NOTE[id] = level note; NA[id] = reason (executed by gen_manifest.py)
