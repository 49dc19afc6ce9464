"""symx.replay <file.json>: run a counterexample against the real code, no
patches installed.  Exit 1 when it reproduces, 0 when it does not."""
import importlib
import json
import os
import sys

from . import boot, tree


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    root = tree.prepare()
    boot.boot(root, False)
    mod = importlib.import_module("harness.%s" % d["property"].lower())
    h = [h for h in mod.harnesses(d["tier"]) if h.name == d["harness"]][0]
    from .explore import run_concrete, RESETS
    from . import patches
    lab, info = run_concrete(h, d["inputs"])
    how = "unpatched"
    if lab is None and d.get("addr"):
        # the behaviour depends on the addresses of objects (id()); which ones the
        # allocator picks is not ours to choose, so give id() the order of the model
        order = {int(k): v for k, v in d["addr"].items()}
        for sign in (1,):
            objs, num = [], {}

            def fake_id(o):
                r = _id(o)
                if r not in num:
                    num[r] = len(objs)
                    objs.append(o)
                k = num[r]
                return (order.get(k, 10 ** 6 + k)) * 1000 + 1000000000 + k
            _id = id
            for m in patches.hatchet_modules():
                m.__dict__["id"] = fake_id
            patches_off = patches.off
            patches.off = lambda: None
            try:
                lab, info = run_concrete(h, d["inputs"])
            finally:
                patches.off = patches_off
                patches.off()
            how = "id() returning the address order of the counterexample"
    if lab is None:
        print("NOT REPRODUCED: %s / %s" % (d["harness"], d["label"]))
        return 0
    print("REPRODUCED (%s): %s fails: %s" % (how, lab, str(info).replace("\n", " / ")[:1200]))
    print("inputs: %s" % json.dumps(d["inputs"]))
    print("REPRODUCED property=%s check=%s %s" % (d["property"], lab, str(info).replace("\n", " / ")[:400]))
    return 1


if __name__ == "__main__":
    sys.exit(main())
