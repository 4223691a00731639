"""One simulated run in a fresh interpreter (other hash seed, other locale)."""
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hapsim import engine  # noqa: E402


def main():
    spec = json.load(open(sys.argv[1]))
    engine.boot()
    r = engine.simulate(spec['scn'], spec['env'], spec['wd'])
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(r, f)


if __name__ == '__main__':
    main()
