import sys

from rv import core

sys.exit(core.main(sys.argv[1:]))
