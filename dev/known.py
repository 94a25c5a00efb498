"""Write sa/known.txt: the functions that the rules know (run on the unchanged tree)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
path = os.path.join(HERE, 'sa', 'known.txt')
open(path, 'a').close()
from sa.model import Program        # noqa: E402
quals = sorted(Program('/repo').funcs)
with open(path, 'w') as fp:
    fp.write('\n'.join(quals) + '\n')
