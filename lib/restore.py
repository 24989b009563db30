"""Run in a process of its own: restores pickled objects and writes down what they answer."""
import logging
import os
import pickle
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def answers(obj, X, again=None):
    """All a trained object reports, as plain values."""
    from sklearn.pipeline import Pipeline

    out = {}
    est = obj.steps[-1][1] if isinstance(obj, Pipeline) else obj
    if hasattr(obj, "predict"):
        r = obj.predict(X.copy())
        if isinstance(r, tuple):
            low, median, high, qpd = r
            out["predict"] = [low, median, high, qpd.ppf(0.3), qpd.ppf(0.9)]
        else:
            out["predict"] = r
    if hasattr(est, "predict_proba") and hasattr(obj, "predict_proba"):
        out["predict_proba"] = obj.predict_proba(X.copy())
    if hasattr(obj, "transform") and not hasattr(obj, "predict"):
        out["transform"] = obj.transform(X.copy())
    if hasattr(est, "get_feature_contributions"):
        Z = obj[:-1].transform(X.copy()) if isinstance(obj, Pipeline) else X.copy()
        out["contributions"] = est.get_feature_contributions(Z)
        out["importances"] = est.get_feature_importances()
        out["stop"] = est.stop_criteria_
    if hasattr(est, "get_feature_bin_boundaries"):
        out["boundaries"] = est.get_feature_bin_boundaries()
    if again is not None:
        obj.fit(again[0].copy(), again[1].copy())
        out["again"] = answers(obj, X)
    return out


def main():
    with open(sys.argv[1], "rb") as f:
        jobs = pickle.load(f)
    out = []
    for data, X, again in jobs:
        try:
            out.append(answers(pickle.loads(data), X, again))
        except Exception as e:  # reported by the parent
            out.append("%s: %s" % (type(e).__name__, e))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
