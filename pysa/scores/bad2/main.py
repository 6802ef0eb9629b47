from iconservice import *

raise SystemExit(3)
