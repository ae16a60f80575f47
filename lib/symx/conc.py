"""Runs a harness on the real code with concrete inputs (replay and validation)."""
import sys, os, json, signal, faulthandler, traceback, io, contextlib, warnings
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def main():
    job = json.load(open(sys.argv[1]))
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(HERE, "lib"))
    sys.path.insert(0, os.path.join(HERE, "checks"))
    from symx import driver
    import importlib.util
    chk = driver.load_check(job["check"])
    hs = {h.name: h for h in chk.HARNESSES}
    out = open(sys.argv[2], "w")
    class TO(BaseException): pass
    def onalarm(*a): raise TO()
    signal.signal(signal.SIGALRM, onalarm)
    if any(getattr(hs[r["harness"]], "gsx", False) for r in job["runs"]):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))     # a loop that does not end may allocate
    for run in job["runs"]:
        h = hs[run["harness"]]
        ctx = driver.ConcCtx(run["inputs"], h, job["tier"], run.get("stubs"), run.get("scripted", False))
        r = {"exc": None}
        signal.alarm(max(run.get("timeout", 60), getattr(h, "watchdog", 0)))
        faulthandler.dump_traceback_later(run.get("timeout", 60) + 15 if not getattr(h, "gsx", False) else getattr(h, "watchdog", 20), exit=True)
        buf = io.StringIO()
        try:
            driver.install_taps(); driver._taps.clear()
            if ctx.scripted: driver.install_script(ctx)
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                h.body(ctx)
        except driver.NotThisPath as e: r["exc"] = None; r["skipped"] = str(e)
        except TO: r["exc"] = "timeout"
        except Exception as e:
            r["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300]); r["tb"] = traceback.format_exc()[-1500:]
        except BaseException as e:
            r["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300]); r["tb"] = traceback.format_exc()[-1500:]; r["base"] = True
        finally:
            signal.alarm(0); faulthandler.cancel_dump_traceback_later()
            if ctx.scripted: driver.remove_script()
        r["viol"] = ctx.viol
        try: r["observed"] = [(n, driver._obsval(FakeCore, None, v)) for n, v in ctx.observed]
        except Exception as e: r["observed"] = None; r["obserr"] = repr(e)
        out.write(json.dumps(r, default=repr) + "\n"); out.flush()
class FakeCore:
    @staticmethod
    def is_sym(v): return False
main()
