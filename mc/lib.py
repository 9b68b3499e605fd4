"""Loads liblarch from /repo's working tree (never from bytecode caches)."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from liblarch import Tree, TreeNode  # noqa: E402
import liblarch as _l  # noqa: E402

if not os.path.abspath(_l.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("liblarch was not loaded from %s" % REPO)

IDS = ("a", "b", "c", "d", "e", "f", "g", "h", "i", "j")


class N(TreeNode):
    """A user's node: one data field that filters look at."""
    def __init__(self, nid, red=False, parent=None):
        self.red = red
        self.rev = 0
        TreeNode.__init__(self, nid, parent)


def is_circular(exc):
    """liblarch refuses cycles by raising a bare Exception that says so."""
    return type(exc) is Exception and "circular" in str(exc)
