"""Prepares a fresh sandbox: parses the specification, builds the binding
when the repository's own build is stale, and tries the recorder once."""
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base                                                 # noqa: E402

for path in sorted(glob.glob(os.path.join(base.SPEC, '*.tla'))):
    done = subprocess.run(['java', '-cp', base.JAVA_CP + ':' + os.path.dirname(base.JAVA_CP) + '/*',
                           'tla2sany.SANY', os.path.basename(path)], cwd=base.SPEC,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if done.returncode:
        print(done.stdout)
        sys.exit(1)
base.binding_directory()
pool = base.Pool(1)
pool.close()
print('ready')
