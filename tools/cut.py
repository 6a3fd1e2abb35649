#!/usr/bin/env python3
"""Turns the definitions of a few library routines into declarations, so that the engine uses their contracts."""
import re, sys
src, dst = sys.argv[1], sys.argv[2]
pats = [re.compile(p) for p in (r'hash_one', r'memchr14memchr_aligned', r'memchr7memrchr', r'5count14do_count_chars', r'5count23char_count_general_case')]
out = []
skip = False
n = 0
with open(src) as f:
    for l in f:
        if skip:
            if l.startswith('}'):
                skip = False
            continue
        if l.startswith('define '):
            m = re.search(r'@([\w.$]+)\(', l)
            if m and any(p.search(m.group(1)) for p in pats) and 'drop_glue' not in m.group(1):
                d = l.rstrip()
                assert d.endswith('{')
                d = d[:-1]
                # keep the signature only
                i = d.index('@' + m.group(1))
                depth = 0
                for j in range(i, len(d)):
                    if d[j] == '(':
                        depth += 1
                    elif d[j] == ')':
                        depth -= 1
                        if depth == 0:
                            break
                head = re.sub(r'\b(internal|private|dso_local|hidden|linkonce_odr|weak_odr|unnamed_addr|local_unnamed_addr)\b ', '', d[:i])
                head = head.replace('define', 'declare', 1)
                out.append(head + d[i:j + 1] + '\n')
                skip = True
                n += 1
                continue
        out.append(l)
with open(dst, 'w') as f:
    f.writelines(out)
print('cut', n, 'library routines')
