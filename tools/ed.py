"""ed.py FILE  <<< python list of (old,new): exact replacements that keep the line ends of the file"""
import sys
def ed(path, *reps):
    b = open(path, 'rb').read()
    crlf = b'\r\n' in b
    s = b.decode().replace('\r\n', '\n')
    for o, n in reps:
        assert s.count(o) == 1, (path, s.count(o), o)
        s = s.replace(o, n)
    if crlf:
        s = s.replace('\n', '\r\n')
    open(path, 'wb').write(s.encode())
