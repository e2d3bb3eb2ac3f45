"""check.py <property>: decide one property over /repo's current tree."""
import os, sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
import props
import props_wx


def main():
    prop = sys.argv[1]
    if prop == "setup":
        common.setup()
        return
    fn = props.CHECKS.get(prop)
    if fn is None:
        sys.exit(f"no check for {prop}")
    try:
        rep, errors = fn()
    except common.CheckError as e:
        print(f"ERROR: {e}")
        sys.exit(2)
    rep.finish(errors)


if __name__ == "__main__":
    main()
