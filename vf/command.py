"""Runs a program of the repository: python vf/command.py PATH ARGUMENTS."""
import runpy
import sys

if __name__ == '__main__':
    del sys.path[0]
    from vf import convfix
    convfix.install()
    del sys.argv[0]
    runpy.run_path(sys.argv[0], run_name='__main__')
