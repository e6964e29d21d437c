"""C05: chunked loading from CSV files."""
from c04 import run_check


def check(c):
    run_check(c, 'csv')
