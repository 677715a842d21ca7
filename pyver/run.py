"""python3-vt -m pyver.run [module] [contract]: runs contracts and prints the results"""
import importlib
import sys

from . import prove


def main():
    importlib.import_module('pyver.contracts.' + sys.argv[1])
    mine = [c for c in prove.REGISTRY if c.name.split('.')[0] == sys.argv[1]]
    for c in mine or prove.REGISTRY:
        if len(sys.argv) > 2 and sys.argv[2] not in c.name:
            continue
        r = c.verify()
        print(r.summary())
        if r.unsupported and len(sys.argv) > 2:
            print(r.trace)
        for o in r.failed:
            print('   ', str(o)[:int(__import__("os").environ.get("PCW", "1500"))])


if __name__ == '__main__':
    main()
