#!/bin/bash
# runs chosen test files of the repository on its working tree, in a scratch copy
d=$(mktemp -d /tmp/t1.XXXX); cp -a /repo/. $d/; . /opt/vp/env.sh; cd $d
PYTHONPATH=$d python -c "
import sys; sys.path.insert(0,'$d')
import specula; specula.init(0); assert specula.__file__.startswith('$d')
import pytest; sys.exit(pytest.main(['-q','-p','no:cacheprovider','-W','ignore']+sys.argv[1:]))" "$@" 2>&1 | tail -${T1_TAIL:-15}
rm -rf $d
