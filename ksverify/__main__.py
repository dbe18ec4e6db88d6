import sys
from .check import main
sys.exit(main(sys.argv[1:]))
