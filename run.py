#!/opt/venv/bin/python
"""run.py PROPERTY [--replay FILE]: decides one property against /repo's working tree."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    import registry
    try:
        rc = registry.run(prop, replay)
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        common.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
