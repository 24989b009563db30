"""Entry point of all checks: check.py <property> [--replay file] [--only workload,...]"""
import importlib
import logging
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def run():
    prop = sys.argv[1]
    import cyclic_boosting

    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    assert os.path.realpath(cyclic_boosting.__file__).startswith(repo + os.sep), cyclic_boosting.__file__
    from lib import rt

    warnings.simplefilter("ignore")
    module = importlib.import_module("props." + prop.lower())
    return rt.main(prop, module, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(run())
