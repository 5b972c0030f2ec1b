import sys
from rv import lib
sys.exit(lib.main())
