#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import core, props
if len(sys.argv) != 2 or sys.argv[1] not in props.PROPS:
    print('usage: check.py <property>; one of ' + ' '.join(sorted(props.PROPS))); sys.exit(2)
sys.exit(core.run(sys.argv[1], props.PROPS, os.environ.get('VERIF_TIER', 'quick')))
