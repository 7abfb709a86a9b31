"""Entry point: check.py <property id> [quick|thorough] [--replay FILE]"""
import sys
import os

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:], HERE))
