"""Histories: generated by TLC from a machine specification (MC*.tla writes them with CSVWrite),
executed by a harness, and validated by the trace specification."""
import json, os
import vt


def emitted(ck, module, cfg=None, env=None, **kw):
    """Model-checks the module and returns the values it emitted (deduplicated, in a stable order)."""
    path = os.path.join(ck.dir, "emit-%s.txt" % (cfg or module))
    if os.path.exists(path):
        os.remove(path)
    ck.model(module, cfg, env=dict(env or {}, VT_EMIT=path), **kw)
    if not os.path.exists(path):
        raise vt.ToolError("%s wrote no histories" % module)
    with open(path) as f:
        res = sorted(set(l.rstrip("\n") for l in f if l.strip()))
        return [json.loads(json.loads(l)) if l.startswith('"') else json.loads(l) for l in res]
