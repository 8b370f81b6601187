"""Build discodop's Cython extensions from /repo's current working tree.

Usage: buildext.py OUTDIR [module...]; run with /opt/venv/bin/python.
Writes nothing in /repo. The sources of the git submodules are absent, so the
containers they provide are replaced with /verif/shim (std:: containers).
With modules listed as path:name, an extra .pyx is built as well."""
import os
import sys
import time
import sysconfig
import subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'disambiguation', 'estimates', '_fragments']

CYTHONIZE = r'''
import os, sys
sys.dont_write_bytecode = True
os.chdir('/repo')
sys.path.insert(0, '/repo')
src, out, name = sys.argv[1:]
try:
	import setup as projectsetup
	directives = dict(projectsetup.directives)
except Exception:
	directives = dict(cdivision=True, nonecheck=False, wraparound=False,
			boundscheck=False, embedsignature=True)
from Cython.Compiler.Main import compile as ccompile, CompilationOptions
from Cython.Compiler.Options import default_options, get_directive_defaults
d = dict(get_directive_defaults())
d.update(directives)
d = {a: b for a, b in d.items() if not a.startswith('warn.')}
opts = dict(default_options, cplus=True, language_level=3, output_file=out,
		include_path=['/repo'], compiler_directives=d, emit_linenums=False)
opts = CompilationOptions(**opts)
res = ccompile(src, opts, full_module_name=name)
if res.num_errors:
	sys.exit(1)
'''


def build(out, mod, opt):
	"""Translate and compile one module; return error text or None."""
	if ':' in mod:
		src, name = mod.rsplit(':', 1)
	else:
		src, name = os.path.join(REPO, 'discodop', mod + '.pyx'), mod
	cpp = os.path.join(out, 'src', name + '.cpp')
	env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
	fullname = 'discodop.' + name if ':' not in mod else name
	p = subprocess.run(['/opt/venv/bin/python', '-c', CYTHONIZE, src, cpp,
			fullname], env=env, stdout=subprocess.PIPE,
			stderr=subprocess.STDOUT)
	if p.returncode:
		return p.stdout.decode('utf8', 'replace')[-3000:]
	so = os.path.join(out, name + sysconfig.get_config_var('EXT_SUFFIX'))
	p = subprocess.run(['g++', '-shared', '-fPIC', opt, '-w',
			'-fno-strict-aliasing', '-fwrapv',
			'-D__STDC_LIMIT_MACROS', '-I' + os.path.join(REPO, 'discodop'),
			'-I' + os.path.join(VERIF, 'shim', 'discodop'),
			'-I' + os.path.join(VERIF, 'shim', 'sparsepp'),
			'-I' + numpyinclude(),
			'-I' + sysconfig.get_path('include'), cpp, '-o', so],
			stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out)
	if p.returncode:
		return p.stdout.decode('utf8', 'replace')[-3000:]
	return None


def numpyinclude():
	try:
		import numpy
		return numpy.get_include()
	except ImportError:
		return '/usr/include'


def main():
	out, mods = sys.argv[1], sys.argv[2:] or ALL
	os.makedirs(os.path.join(out, 'src'), exist_ok=True)
	opt = os.environ.get('VERIF_OPT', '-O1')
	bad = False
	with ThreadPoolExecutor(8) as ex:
		for mod, err in zip(mods, ex.map(lambda m: build(out, m,
				'-O2' if m == 'bit' or ':' in m else opt), mods)):
			if err:
				print('FAILED', mod, err)
				bad = True
	return 1 if bad else 0


if __name__ == '__main__':
	start = time.time()
	status = main()
	if '-v' in os.environ.get('VERIF_BUILD', ''):
		print('%.1fs' % (time.time() - start))
	sys.exit(status)
