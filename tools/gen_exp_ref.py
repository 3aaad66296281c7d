#!/usr/bin/env python3-vt
"""writes harness/exp_ref.inc: correctly rounded exponentials of the cell boundaries (mpmath, 40 digits)"""
import mpmath, os
mpmath.mp.dps = 40
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'exp_ref.inc'), 'w') as f:
    for o in range(8):
        n = 512 if o else 1024; w = 2.0 ** o / 1024; base = 2.0 ** (o - 1) if o else 0.0
        f.write('#if OCT_ == %d\nstatic const double EXP_REF[%d] = {' % (o, n + 1))
        f.write(','.join(repr(float(mpmath.exp(base + k * w))) for k in range(n + 1)))
        f.write('};\n#endif\n')
