#!/bin/sh
cd /verif && exec /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0,'/verif')
import runpy; runpy.run_module('$1', run_name='__main__')"
