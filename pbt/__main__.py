import sys
from .runner import main
try:
    code = main(sys.argv[1:])
except Exception:
    import traceback
    traceback.print_exc()
    code = 2
sys.stdout.flush()
sys.exit(code)
