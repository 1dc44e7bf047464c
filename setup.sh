#!/bin/bash
# nothing is kept between runs: every check builds the analyser itself (about 10 s)
cd "$(dirname "$0")" && mkdir -p evidence && test -d checker && test -x /opt/veriftools/go1.27.3/bin/go
