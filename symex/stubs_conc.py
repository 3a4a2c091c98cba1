"""Stand-ins for the concrete replay: cairo is never loaded."""
import sys
import fakecairo
sys.modules['cairo'] = fakecairo
sys.modules['cairocffi'] = fakecairo
