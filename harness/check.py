"""Entry point of every check: check.py <property id> [--replay FILE]."""
import importlib
import os
import sys
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STOCHOPY_REPO", "/repo")
sys.path.insert(0, REPO)

import vlib  # noqa: E402

MODULES = {}
for _ids, _mod in (
    ("C01 C03 C04 C05 C07 C09", "p_pop"),
    ("C02 C06", "p_evo"),
    ("C16 C17 C26 C29 C30 C40", "p_twin"),
    ("C18 C19", "p_par"),
    ("C08", "p_feas"),
    ("C10 C11 C12 C13 C14 C15", "p_move"),
    ("C20 C21", "p_fault"),
    ("C22 C23 C24", "p_chain"),
    ("C31 C32 C33", "p_adapt"),
    ("C25", "p_config"),
    ("C34", "p_bind"),
    ("C35", "p_draw"),
    ("C36", "p_stop"),
    ("C39", "p_sched"),
    ("C37", "p_meta"),
    ("C38", "p_meta"),
    ("C27", "p_obj"),
    ("C28", "p_bench"),
):
    for _i in _ids.split():
        MODULES[_i] = _mod


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(MODULES[prop])
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return mod.replay(prop, sys.argv[3])
    check = vlib.Check(prop)
    try:
        mod.run(check)
    except vlib.ProjectionError as e:
        print(e.text)
        case = next((x for x in (e.item if isinstance(e.item, (tuple, list)) else [e.item]) if isinstance(x, dict)), dict(item=str(e.item)))
        check.violate(prop + ".malformed", case, e.text.strip().splitlines()[-1])
    except Exception:
        if not check.violations:
            raise
        traceback.print_exc()
    return check.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    if "joblib.externals.loky.reusable_executor" in sys.modules:
        try:  # idle worker processes would keep our standard output open
            from joblib.externals.loky import reusable_executor as _re
            if _re._executor is not None:
                _re._executor.shutdown(wait=True, kill_workers=True)
        except Exception:
            pass
    os._exit(rc)
