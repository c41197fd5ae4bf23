import sys
from .framework import main
sys.exit(main(sys.argv[1:]))
