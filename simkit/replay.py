import sys

from simkit import core

sys.exit(core.replay_main(sys.argv[1]))
