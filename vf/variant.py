"""Two classes of the library are twins (client and server message stream).  The contracts of one are run against the other by
re-reading the property module with the class name replaced; obligations are still discharged on the code of the named class."""
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def source(mod, subs):
    t = open('%s/props/%s.py' % (HERE, mod)).read()
    for a, b in subs:
        n = re.sub(a, b if callable(b) else (lambda m, b=b: b), t, flags=re.S)
        if n == t:
            raise RuntimeError('variant of %s: %s does not occur' % (mod, a))
        t = n
    return compile(t, '%s/props/%s.py' % (HERE, mod), 'exec')
