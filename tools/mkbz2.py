#!/usr/bin/env python3
# Regenerates mc/props/bz2table.go (no bzip2 writer in Go's library):
#   VMC_BZ2DOCS=1 mc bz2docs | tools/mkbz2.py
import sys,json,bz2,hashlib
docs=json.load(sys.stdin)
out=['package props','','// Code generated by tools/mkbz2.py. DO NOT EDIT.','','// bz2Table maps the SHA-256 of a fixed document to its bzip2 form.','var bz2Table = map[string][]byte{']
for d in docs:
    b=d.encode()
    z=bz2.compress(b)
    out.append('\t"%s": []byte("%s"),'%(hashlib.sha256(b).hexdigest(),''.join('\\x%02x'%c for c in z)))
out.append('}')
open('/verif/mc/props/bz2table.go','w').write('\n'.join(out)+'\n')
