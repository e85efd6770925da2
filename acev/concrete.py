"""Runner of one concrete oracle, in its own process."""
import json
import os
import sys


def main():
    prop, tier, seed, out = sys.argv[1:5]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import importlib
    from oracles import common
    common.setup()
    common.random.seed(int(seed))
    rep = common.Reporter(prop, tier, int(seed))
    mod = importlib.import_module('oracles.' + prop.lower())
    if len(sys.argv) > 5 and sys.argv[5]:
        case = json.loads(sys.argv[5])
        os.environ['ACEV_ONLY'] = json.dumps(case)
        orig = rep.run

        def only(name, fn, *a, **k):
            cur = {'case': name, 'args': [common._short(x) for x in a], **{q: common._short(v) for q, v in k.items()}}
            if cur == case:
                orig(name, fn, *a, **k)
        rep.run = only
    def write():
        with open(out + '.tmp', 'w') as f:
            json.dump(rep.result(), f)
        os.replace(out + '.tmp', out)
    rep.found = write        # what was found counts even if a later case does not end
    try:
        mod.run(rep)
    except Exception as e:       # the oracle itself failed
        import traceback
        rep.skipped.append('oracle: ' + traceback.format_exc()[-1500:])
    write()


if __name__ == '__main__':
    main()
