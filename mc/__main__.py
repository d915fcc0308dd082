import sys
from mc import engine
sys.exit(engine.main(sys.argv[1:]))
