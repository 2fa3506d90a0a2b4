"""classification_report returns its inputs (the checks compare what it is given); roc_curve and auc are exact."""
import numpy as np

from symx import core as _core
from ._strict import module_getattr as _m, unsupported
from .utils.validation import column_or_1d


def roc_curve(y_true, y_score, **k):
    if k and set(k) - {"pos_label"}:
        unsupported("roc_curve options")
    t = [x for x in np.asarray(y_true).ravel()]
    s = [x for x in np.asarray(y_score).ravel()]
    if len(t) != len(s):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(t), len(s)))
    pos = k.get("pos_label", 1)
    import functools
    order = sorted(range(len(s)), key=functools.cmp_to_key(lambda a, b: -1 if bool(s[a] > s[b]) else (1 if bool(s[a] < s[b]) else 0)))
    P = sum(1 for x in t if bool(x == pos))
    N = len(t) - P
    fpr, tpr, thr = [0.0], [0.0], [None]
    tp = fp = 0
    for n, i in enumerate(order):
        if bool(t[i] == pos):
            tp += 1
        else:
            fp += 1
        if n + 1 == len(order) or not bool(s[order[n + 1]] == s[i]):
            tpr.append(tp / P if P else float("nan"))
            fpr.append(fp / N if N else float("nan"))
            thr.append(s[i])
    return np.array(fpr), np.array(tpr), np.array(thr, dtype=object)


def auc(x, y):
    x, y = list(x), list(y)
    return float(sum((x[i + 1] - x[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(x) - 1)))


def classification_report(y_true, y_pred, output_dict=False, labels=None, target_names=None, **k):
    if k and set(k) - {"zero_division", "digits", "sample_weight"}:
        unsupported("classification_report options %s" % (list(k),))
    t, p = list(column_or_1d(y_true)), list(column_or_1d(y_pred))
    if len(t) != len(p):
        raise ValueError("Found input variables with inconsistent numbers of samples")
    if not output_dict:
        unsupported("text classification_report")
    labs = sorted(set(t) | set(p)) if labels is None else list(labels)
    out = {}
    for i, l in enumerate(labs):
        tp = sum(1 for a, b in zip(t, p) if a == l and b == l)
        pp = sum(1 for b in p if b == l)
        tt = sum(1 for a in t if a == l)
        pr, rc = (tp / pp if pp else 0.0), (tp / tt if tt else 0.0)
        out[str(l) if target_names is None else target_names[i]] = {
            "precision": pr, "recall": rc, "f1-score": 2 * pr * rc / (pr + rc) if pr + rc else 0.0, "support": tt}
    n = len(t)
    rows = list(out.values())
    out["accuracy"] = sum(1 for a, b in zip(t, p) if a == b) / n if n else 0.0
    out["macro avg"] = {k2: (sum(r[k2] for r in rows) / len(rows) if k2 != "support" else n) for k2 in ("precision", "recall", "f1-score", "support")}
    out["weighted avg"] = {k2: (sum(r[k2] * r["support"] for r in rows) / n if k2 != "support" else n) for k2 in ("precision", "recall", "f1-score", "support")}
    return out


def roc_auc_score(y_true, y_score, **k):
    f, t, _ = roc_curve(y_true, y_score)
    return auc(f, t)


__getattr__ = _m("metrics")
