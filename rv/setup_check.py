"""setup_cmd: nothing is built; see that the interpreter, numpy, fca and every property module can be loaded."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run
tmp = tempfile.mkdtemp(prefix='rv-setup-')
try:
    code = ("import sys; sys.path.insert(0,%r); import run; run.load_fca(); import importlib, core, model, gen, lib; "
            "[importlib.import_module('props.'+p.lower()) for p in sorted(run.case_table())]; "
            "print(len(run.case_table()), 'monitors load, python', sys.version.split()[0])" % HERE)
    sys.exit(subprocess.call([run.PY, '-W', 'ignore', '-c', code], env=run.env_for(tmp, 0), cwd=tmp))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
