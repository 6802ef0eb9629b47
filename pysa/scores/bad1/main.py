from iconservice import *
import vp

raise ValueError('refused')
