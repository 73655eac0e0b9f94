import sys

sys.setrecursionlimit(200000)
from .core import main  # noqa: E402

if __name__ == "__main__":
    sys.stdout.reconfigure(encoding="utf-8")
    code = main(sys.argv)
    sys.stdout.flush()
    sys.exit(code)
