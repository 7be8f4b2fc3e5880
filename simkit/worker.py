import sys

from simkit import core

core.worker_main(sys.argv[1:])
