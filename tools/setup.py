"""Nothing to compile: checks that the tools the checks use are there."""
import os, shutil, sys
need = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar', '/opt/venv/bin/python']
missing = [p for p in need if not os.path.exists(p)] + ([] if shutil.which('java') else ['java'])
if missing:
    sys.exit('missing: %s' % missing)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
