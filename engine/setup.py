#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
try:
    check.driver()
except check.Fail as e:
    print(e)
    sys.exit(1)
print('driver ready')
