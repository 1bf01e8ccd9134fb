"""python -m dst.check C01 -- decide one property (see runner.main)."""
import sys

if __name__ == '__main__':
    from dst import runner
    sys.exit(runner.main(sys.argv[1].upper()))
