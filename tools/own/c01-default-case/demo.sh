#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
w=$PWD/wip
export MODULESHOME=/nonexistent
export PYTHONPATH=$PWD/src:$w/keywordparser:$w/determinesystem:$w/setenvironment/src:$w/genconfig:$w/genconfig/src:$w/loadenv
exec /opt/venv/bin/python -B "$here/demo.py"
