import sys

from engine.runner import main

sys.exit(main())
