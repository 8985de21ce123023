import sys

from simkit import runner

sys.exit(runner.worker_main(sys.argv[1:]))
