import sys

from mc.framework import main

sys.exit(main(sys.argv[1:]))
