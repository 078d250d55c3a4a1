#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dvlib, native
dvlib.engine_so(); dvlib.build_ir(); native.build_native(); native.build_native(True)
print('ready')
