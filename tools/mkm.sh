#!/bin/bash
PYTHONPATH=/opt/veriftools/pyvenv/lib/python3.12/site-packages exec /opt/venv/bin/python -B "$(dirname "$0")/mkmanifest.py"
