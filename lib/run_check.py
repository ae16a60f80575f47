import sys, os, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, os.path.join(HERE, "checks"))
def main():
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from symx import driver
    chk = driver.load_check(cid)
    if hasattr(chk, "main"): return chk.main(tier)
    return driver.run_check(cid, tier)
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
