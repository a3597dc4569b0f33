#!/bin/bash
# where.sh ID regex secs: stack of the proof bodies after secs
cd /verif; timeout $((${3:-40}+20)) python3-vt -W ignore -X faulthandler -c "
import faulthandler; faulthandler.dump_traceback_later(${3:-40}, exit=True)
import sys; sys.argv=['dbg','$1','$2']
exec(open('tools/dbg.py').read())" 2>&1 | tail -${4:-60} | cut -c1-150
