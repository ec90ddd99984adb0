"""Entry point: main.py <property id>."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import kit


def main():
  pid = sys.argv[1].upper()
  c = None
  try:
    kit.setup_repo()
    mod = importlib.import_module(pid.lower())
    c = kit.Check(pid, mod.LEVEL)
    mod.run(c)
    rc = c.finish()
  except kit.MachineryError as e:
    print('MACHINERY ERROR:', e)
    rc = 2
  except Exception as e:
    traceback.print_exc(file=sys.stdout)
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    rc = 2
    if c is not None and any(f.startswith(kit.REPO + '/') for f in frames):
      # The implementation raised where every use is legal.
      c.violation('unexpected-exception-' + type(e).__name__,
                  dict(error=str(e)[:500], trace=traceback.format_exc(limit=-8)))
      rc = c.finish()
    elif c is not None and isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError,
                                          AssertionError)):
      # The implementation answered with something a recorder cannot read (an
      # attribute is missing, a result is no number, a list is too short).
      c.violation('answer-cannot-be-recorded-' + type(e).__name__,
                  dict(error=str(e)[:500], trace=traceback.format_exc(limit=-8)))
      rc = c.finish()
  sys.stdout.flush()
  # Some libraries keep threads alive; the verdict is out, so leave at once.
  import shutil
  if kit._work:
    shutil.rmtree(kit._work, ignore_errors=True)
  os._exit(rc)


main()
