"""python -m vmon.child IN OUT : the programs of C31 in this interpreter."""
import pickle
import sys


def main():
    from vmon import boot
    boot.import_subject()
    from vmon.checks import c31
    with open(sys.argv[1], "rb") as f:
        keys, x64, parent = pickle.load(f)
    out = c31.child(keys, x64, parent)
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
