"""Builds the driver and the binaries from /repo, and parses the specifications."""
import sys
from run import *

try:
    build_driver()
    build_bins()
except ToolError as e:
    log(e)
    sys.exit(1)
log("ready")
