#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs, so this only verifies that the
compilers, ASan and the engine work here."""
import os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix='ttlv.setup.')
try:
    p = os.path.join(d, 's.cpp')
    open(p, 'w').write('''#include "pbt.hpp"
const char *const pbt_name = "setup";
const char *const pbt_rule = "-";
const unsigned pbt_quick_cases = 1000, pbt_thorough_cases = 1000;
void pbt_reset() {}
void pbt_property(pbt::Src &s) { unsigned a = s.below(100); CHECK(a < 99 || FAILS, "found %u", a); }
#include "pbt_main.hpp"
''')
    for fails, want in ((1, 0), (0, 1)):
        subprocess.check_call(['g++', '-std=gnu++17', '-O1', '-fno-exceptions', '-fno-rtti', '-fsanitize=address', '-DFAILS=%d' % fails,
                               '-I' + os.path.join(here, 'harness'), p, '-o', os.path.join(d, 's')])
        rc = subprocess.run([os.path.join(d, 's'), '--out', os.path.join(d, 'o'), '--replay-out', os.path.join(d, 'r'), '--tmp', d],
                            stdout=subprocess.DEVNULL).returncode
        if rc != want:
            print('the engine ended with %d instead of %d' % (rc, want))
            sys.exit(1)
    print('ok')
finally:
    shutil.rmtree(d, ignore_errors=True)
